"""Instantiating the shape-level behaviours of AlgGen/AlgWalk with concrete structures."""
import os, random, re
from vlib import *
import nt

class Inst:
    """A concrete structure: how to declare it and how to make elements of it."""
    def __init__(self, name, pre, fname, gen, order, ring=True, mult_order=None, has=()):
        self.name, self.pre, self.f, self.gen, self.order, self.ring = name, pre, fname, gen, order, ring
        self.mult_order = mult_order or order
        self.has = set(has)

def limbs_edge(rng, n):
    """Values that stress limb boundaries below n."""
    b = n.bit_length()
    c = [1, 2, n - 1, n - 2, n // 2, n // 2 + 1, (n + 1) // 2]
    for k in (31, 32, 63, 64, 65, 127, 128, 192):
        if k < b: c += [1 << k, (1 << k) - 1, (1 << k) + 1]
    c += [((1 << b) - 1) ^ ((1 << (b // 2)) - 1), rng.randrange(n), rng.randrange(n), rng.randrange(n)]
    c += [n - (1 << k) for k in (1, 32, 64) if k < b]
    if n % 2:                                            # sparse Montgomery forms
        ri = pow(1 << (64 * ((b + 63) // 64)), -1, n)
        c += [(rng.randrange(1, 9) << k) * ri % n for k in (0, 64, 128) if k < b]
    return c[rng.randrange(len(c))] % n

def zn_inst(impl, n, tag=""):
    def gen(x, rng):
        k = rng.random()
        v = rng.randrange(n) if k < .4 else limbs_edge(rng, n)
        if k > .9: v += n * rng.randrange(1, 4)
        elif k > .8: v -= n * rng.randrange(1, 4)
        return ["setmpz %s %d" % (x, v)]
    return Inst("zn-%s-%s" % (impl, tag or n.bit_length()), ["field F zn %s %d" % (impl, n)], "F", gen, n, mult_order=n - 1)


def zn_val(n, rng):
    return rng.randrange(n) if rng.random() < .6 else limbs_edge(rng, n)

def items_gen(cnt, basegen, tmp):
    """Fill an element coordinate by coordinate through a register of the base field."""
    def gen(x, rng):
        L = []
        k = rng.random()
        zero = set()
        if k < .15: zero = set(range(1, cnt))              # embedded base element
        elif k < .3: zero = set(range(cnt - 1))            # only the top coordinate
        elif k < .5: zero = {i for i in range(cnt) if rng.random() < .5}
        for i in range(cnt):
            L += (["set0 " + tmp] if i in zero else basegen(tmp, rng)) + ["setitem %s %s %d" % (x, tmp, i)]
        return L
    return gen

def quad_inst(kind, impl, p, tag=""):
    b = zn_inst(impl, p)
    pre = b.pre + ["elem u0 F", "field Q %s F" % kind]
    return Inst("%s-%s-%s" % (kind, impl, tag or p.bit_length()), pre, "Q", items_gen(2, b.gen, "u0"), p, mult_order=p * p - 1, has={"int", "sqrt"})

def poly_pre(F, R, f, coeffs, x="f0", t="u0"):
    """Lines that build polynomial register f with integer coefficients."""
    L = ["elem %s %s" % (f, R)]
    for i, c in enumerate(coeffs):
        L += ["setmpz %s %d" % (t, c), "setcoeff %s %s %d" % (f, t, i)]
    return L

def pm_inst(impl, p, n, rng, sparse=False, coeffs=None, tag=""):
    b = zn_inst(impl, p)
    f = coeffs or nt.irred_poly(n, p, rng, sparse)
    pre = b.pre + ["field R poly F", "elem u0 F"] + poly_pre("F", "R", "f0", f) + ["field K polymod f0"]
    return Inst("pm%d-%s-%s%s" % (n, impl, tag or p.bit_length(), "s" if sparse else ""), pre, "K", items_gen(n, b.gen, "u0"), p, mult_order=p ** n - 1, has={"int", "sqrt"})

def tower_inst(impl, p, n, rng):
    """K = F_{p^2}[x]/(x^n - c), p = 3 mod 4, c neither a square nor a cube."""
    b = zn_inst(impl, p)
    q = p * p
    while True:
        c = (rng.randrange(p), rng.randrange(1, p))
        if all(n % d or nt.q2pow(c, (q - 1) // d, -1, p) != (1, 0) for d in (2, 3) if (q - 1) % d == 0) and all((q - 1) % d == 0 for d in (2, 3) if n % d == 0): break
    pre = b.pre + ["elem u0 F", "field Q fi F", "elem u1 Q", "field R poly Q", "elem f0 R"]
    pre += ["setmpz u0 %d" % (-c[0] % p), "setitem u1 u0 0", "setmpz u0 %d" % (-c[1] % p), "setitem u1 u0 1", "setcoeff f0 u1 0", "setcoeff1 f0 %d" % n, "field K polymod f0"]
    qg = items_gen(2, b.gen, "u0")
    return Inst("tower%d-%s-%d" % (n, impl, p.bit_length()), pre, "K", items_gen(n, qg, "u1"), p, mult_order=p ** (2 * n) - 1, has={"int", "sqrt"})

def quadtower_inst(impl, p, n, rng):
    """Quadratic extension of a cubic/quintic polymod (as in the d and g pairings)."""
    b = pm_inst(impl, p, n, rng)
    return Inst("quad-" + b.name, b.pre + ["elem u1 K", "field Q quad K"], "Q", items_gen(2, items_gen(n, zn_inst(impl, p).gen, "u0"), "u1"), p, mult_order=p ** (2 * n) - 1, has={"int", "sqrt"})

def g3_gen(m):
    nb = 16 * ((m + 64) // 64)
    def gen(x, rng):
        by = bytearray(nb); k = rng.random()
        for i in range(m):
            v = 0 if k < .15 and rng.random() < .9 else rng.randrange(3)
            if k > .9: v = 2
            if k > .95: v = 1
            if v: by[2 * (i // 8) + (v - 1)] |= 1 << (i % 8)
        return ["frombytes %s %s" % (x, by.hex())]
    return gen
def g3_inst(kind, m, t):
    pre = ["field F3 gf3m %d %d" % (m, t)]
    g = g3_gen(m)
    if kind == "gf3m": return Inst("gf3m-%d-%d" % (m, t), pre, "F3", g, 3, mult_order=3 ** m - 1)
    if kind == "gf32m": return Inst("gf32m-%d" % m, pre + ["elem u0 F3", "field F9 gf32m F3"], "F9", items_gen(2, g, "u0"), 3, mult_order=3 ** (2 * m) - 1)
    if kind == "gf33m": return Inst("gf33m-%d" % m, pre + ["elem u0 F3", "field F27 gf33m F3"], "F27", items_gen(3, g, "u0"), 3, mult_order=3 ** (3 * m) - 1)
    if kind == "gf36m": return Inst("gf36m-%d" % m, pre + ["elem u0 F3", "field F9 gf32m F3", "elem u1 F9", "field F27 gf33m F9"], "F27", items_gen(3, items_gen(2, g, "u0"), "u1"), 3, mult_order=3 ** (6 * m) - 1)

def poly_inst(impl, p):
    b = zn_inst(impl, p)
    pre = b.pre + ["elem u0 F", "field R poly F"]
    def gen(x, rng):
        d = rng.choice([0, 1, 1, 2, 3, 5, 8]); L = ["set0 " + x]
        for i in range(d):
            if rng.random() < .75: L += b.gen("u0", rng) + ["setcoeff %s u0 %d" % (x, i)]
        return L
    return Inst("poly-%s-%d" % (impl, p.bit_length()), pre, "R", gen, p, mult_order=12, has={"poly"})

def ec_tiny(impl, p, a, b):
    pts = nt.curve_points(p, a, b); n = len(pts) + 1
    pre = ["field F zn %s %d" % (impl, p), "elem u0 F", "elem u1 F", "setmpz u0 %d" % a, "setmpz u1 %d" % b, "field E ec F u0 u1 %d -" % n]
    gen = lambda x, rng: ["set0 " + x] if not pts or rng.random() < .1 else ["ecset %s %d %d" % ((x,) + rng.choice(pts))]
    i = Inst("ec-%s-%d-%d-%d" % (impl, p, a, b), pre, "E", gen, n, ring=False)
    i.pts = pts; return i
def ec_pair(param, grp="G1", pool=5):
    """A group of a shipped pairing; values come from a pool of hashed and random elements and their combinations."""
    d = nt.read_param(param, REPO); r = d.get("r") or d.get("n")
    pre = ["pairing P %s/param/%s.param" % (REPO, param)]
    for k in range(pool): pre += ["elem g%d P.%s" % (k, grp), "hash g%d %s" % (k, random.Random(param + grp + str(k)).randbytes(8).hex()) if k % 2 else "random g%d" % k]
    def gen(x, rng):
        g = lambda: "g%d" % rng.randrange(pool)
        return rng.choice([["set %s %s" % (x, g())], ["add %s %s %s" % (x, g(), g())], ["sub %s %s %s" % (x, g(), g()), "add %s %s %s" % (x, x, g())], ["dbl %s %s" % (x, g()), "add %s %s %s" % (x, x, g())]])
    i = Inst("ec-%s-%s" % (param, grp), pre, "P." + grp, gen, r, ring=False)
    i.zr = "P.Zr"; return i
def ec_big(impl, p, a, b, order, tag):
    """A curve over a large prime field with points found from x coordinates."""
    pre = ["field F zn %s %d" % (impl, p), "elem u0 F", "elem u1 F", "setmpz u0 %d" % a, "setmpz u1 %d" % b, "field E ec F u0 u1 %d -" % order]
    gen = lambda x, rng: ["setmpz u0 %d" % rng.randrange(p), "ecfromx %s u0" % x]
    return Inst("ec-%s-%s" % (impl, tag), pre, "E", gen, order, ring=False)
def gt_pair(param):
    i = ec_pair(param, "GT"); i.name = "gt-" + param; return i

ZERO_H = ["fresh", "z_set0", "z_subself", "z_subcopy", "z_addneg", "z_mul0", "z_order", "z_setsi", "z_neg0", "z_sq0", "z_mulmpz0", "z_clearset"]
ONE_H = ["o_set1", "o_setsi", "o_divself", "o_pow0", "o_negneg"]
VAL_H = ["v", "v2", "v_neg", "v_inv", "v_sq", "v_dbl", "v_copy", "m_1", "v_after0", "v_halve"]

def hist(inst, h, x, t, rng):
    if h[0] == "n" and h[1:].isdigit(): return ["setmpz %s %s" % (x, h[1:])]         # an explicit residue
    if h[0] == "p" and h[1:].isdigit():                                              # an explicit point of a tiny curve
        k = int(h[1:]); return ["set0 " + x] if k == 0 else ["ecset %s %d %d" % ((x,) + inst.pts[k - 1])]
    g = lambda r: inst.gen(r, rng)
    if h.startswith("eq_") or h.startswith("ne_"):         # relative to register a
        rel = {"eq_copy": ["set b a"], "eq_negneg": ["neg b a", "neg b b"], "eq_addsub": g(t) + ["add b a %s" % t, "sub b b %s" % t],
               "eq_dblhalve": ["dbl b a", "halve b b"], "eq_invinv": ["set1 b", "inv b a", "inv b b"], "eq_muldiv": g(t) + ["mul b a %s" % t, "div b b %s" % t],
               "eq_rt": ["rt b a"], "eq_str": ["rtstr b a 10"], "eq_add0": ["set0 " + t, "add b %s a" % t], "eq_mul1": ["set1 " + t, "mul b %s a" % t],
               "eq_sub0": ["set0 " + t, "sub b a %s" % t], "eq_self": ["sub b a a", "add b b a"],
               "ne_inc": ["set1 " + t, "add b a %s" % t], "ne_neg": ["neg b a"], "ne_dbl": ["dbl b a"], "ne_zero": ["sub b a a"]}
        return g("b") + rel[h]
    L = {
        "fresh": lambda: ["clear " + x, "elem %s %s" % (x, inst.f)],
        "z_set0": lambda: g(x) + ["set0 " + x],
        "z_subself": lambda: g(x) + ["sub %s %s %s" % (x, x, x)],
        "z_subcopy": lambda: g(x) + ["set %s %s" % (t, x), "sub %s %s %s" % (x, x, t)],
        "z_addneg": lambda: g(x) + ["neg %s %s" % (t, x), "add %s %s %s" % (x, x, t)],
        "z_mul0": lambda: g(x) + ["set0 " + t, "mul %s %s %s" % (x, x, t)],
        "z_order": lambda: g(x) + (["setmpz %s %d" % (x, inst.order * rng.choice([1, 1, 2, -1, 3]))] if inst.order and inst.ring and "int" in inst.has or inst.name.startswith("zn") else ["mulmpz %s %s 0" % (x, x)]),
        "z_setsi": lambda: g(x) + ["setsi %s 0" % x],
        "z_neg0": lambda: g(x) + ["set0 " + x, "neg %s %s" % (x, x)],
        "z_sq0": lambda: g(x) + ["set0 " + t, "sq %s %s" % (x, t)],
        "z_mulmpz0": lambda: g(x) + ["mulmpz %s %s 0" % (x, x)],
        "z_clearset": lambda: g(x) + ["set0 " + t, "set %s %s" % (x, t)],
        "o_set1": lambda: g(x) + ["set1 " + x],
        "o_setsi": lambda: g(x) + ["setsi %s 1" % x],
        "o_divself": lambda: g(x) + ["div %s %s %s" % (x, x, x)],
        "o_pow0": lambda: g(x) + ["powmpz %s %s 0" % (x, x)],
        "o_negneg": lambda: ["set1 " + x, "neg %s %s" % (x, x), "neg %s %s" % (x, x)],
        "v": lambda: g(x), "v2": lambda: g(x),
        "v_neg": lambda: g(x) + ["neg %s %s" % (x, x)],
        "v_inv": lambda: g(x) + ["inv %s %s" % (x, x)],
        "v_sq": lambda: g(x) + ["sq %s %s" % (x, x)],
        "v_dbl": lambda: g(t) + ["dbl %s %s" % (x, t)],
        "v_copy": lambda: g(t) + ["set %s %s" % (x, t)],
        "v_halve": lambda: g(t) + ["halve %s %s" % (x, t)],
        "m_1": lambda: ["set1 " + x, "neg %s %s" % (x, x)],
        "v_after0": lambda: ["set0 " + x] + g(x),
    }
    return L[h]()

def scalar(inst, s, rng):
    n = inst.order or 1000003
    m = inst.mult_order or n
    T = {"0": 0, "1": 1, "2": 2, "3": 3, "neg1": -1, "neg2": -2, "ord": n, "ord-1": n - 1, "ord+1": n + 1, "mord": m, "mord-1": m - 1,
         "r": rng.randrange(max(n, 2)), "big": rng.getrandbits(n.bit_length() + 70), "pow2": 1 << rng.randrange(1, n.bit_length() + 3),
         "ones": (1 << rng.randrange(2, n.bit_length() + 2)) - 1, "si": rng.choice([5, 7, 255, 65537, 2**31 - 1, 2**31, 2**62 + 3]), "nsi": -rng.choice([5, 7, 255, 65537, 2**31, 2**62 + 3]),
         "lmax": 2**63 - 1, "lmin": -2**63, "small": rng.randrange(4, 40)}
    return T[s]

LONG = {"setsi", "mulsi", "addui"}
def opline(inst, op, c, a, b, s, rng):
    if op in ("add", "sub", "mul", "div"): return ["%s %s %s %s" % (op, c, a, b)]
    if op in ("set", "neg", "dbl", "halve", "sq", "inv", "sqrt", "cube"): return ["%s %s %s" % (op, c, a)]
    if op in ("set0", "set1"): return ["%s %s" % (op, c)]
    if op == "gen": return inst.gen(c, rng)
    if op in ("issqr", "sign"): return ["%s %s" % (op, a)]
    if op == "cmp": return ["cmp %s %s" % (a, b)]
    if op in ("mulzn", "powzn"): return ["setmpz k1 %d" % scalar(inst, s, rng), "%s %s %s k1" % (op, c, a)]
    v = scalar(inst, s, rng)
    if op in LONG:
        if not -2**63 <= v < 2**63: v = v % 2**62
        if op == "addui": v = abs(v)
        return ["setsi %s %d" % (c, v)] if op == "setsi" else ["%s %s %s %d" % (op, c, a, v)]
    if op == "setmpz": return ["setmpz %s %d" % (c, v)]
    if op in ("powmpz",): return ["powmpz %s %s %d" % (c, a, abs(v))]
    if op == "mulmpz": return ["mulmpz %s %s %d" % (c, a, v if inst.ring else abs(v))]
    if op == "pow2mpz": return ["pow2mpz %s %s %d %s %d" % (c, a, abs(v), b, abs(scalar(inst, rng.choice(["0", "1", "r", "ord-1", "ones"]), rng)))]
    if op == "pow3mpz": return ["pow3mpz %s %s %d %s %d %s %d" % (c, a, abs(v), b, abs(scalar(inst, rng.choice(["0", "1", "r", "ones"]), rng)), rng.choice("abcd"), abs(scalar(inst, rng.choice(["0", "r", "pow2", "2"]), rng)))]
    if op == "pppow": return ["ppinit P %s" % a, "pppow %s P %d" % (c, abs(v) % (inst.mult_order or inst.order)), "ppclear P"]
    raise ValueError(op)

def header(inst, zr=None):
    L = list(inst.pre)
    if zr is None: zr = getattr(inst, "zr", None)
    if isinstance(zr, int): L.append("field Zx zn naive %d" % zr); zr = "Zx"
    L += ["elem %s %s" % (r, inst.f) for r in "abcdt"]
    if zr: L += ["elem k%d %s" % (i, zr) for i in (1, 2, 3)]
    return L

def scen_lines(inst, sc, rng):
    """One scenario of AlgGen as script lines."""
    L = []
    al = sc["al"]
    L += hist(inst, sc["ha"], "a", "t", rng)
    if sc["hb"]: L += hist(inst, sc["hb"], "b", "t", rng)
    if sc["hc"]: L += hist(inst, sc["hc"], "c", "t", rng)
    if sc["op"] in ("add", "sub", "mul", "div", "cmp"):
        c, a, b = {"cab": "cab", "aab": "aab", "bab": "bab", "caa": "caa", "aaa": "aaa"}[al]
    else:
        c, a = {"ca": "ca", "aa": "aa"}[al]; b = "b"
    L += opline(inst, sc["op"], c, a, b, sc["s"], rng)
    return L

def pow_lines(inst, h, rng):
    """One behaviour of PowGen."""
    L = []; live = []
    for o, t, r in h:
        if o == "gen": L += inst.gen(r, rng)
        elif o in ("set0", "set1"): L.append("%s %s" % (o, r))
        elif o == "remake": L += ["clear " + r, "elem %s %s" % (r, inst.f)]
        elif o == "ppinit": L.append("ppinit %s %s" % (t, r)); live.append(t)
        elif o == "ppclear": L.append("ppclear " + t); live.remove(t)
        else:
            v = abs(scalar(inst, rng.choice(["0", "1", "2", "3", "r", "r", "big", "ord", "ord-1", "mord", "mord-1", "pow2", "ones", "small"]), rng))
            L += ["pppow %s %s %d" % (r, t, v)] if o == "pppow" else ["setmpz k1 %d" % v, "pppowzn %s %s k1" % (r, t)]
    return L + ["ppclear " + t for t in live]
def pow_jobs(inst, hs, seed, per):
    jobs = []
    for k in range(0, len(hs), per):
        rng = random.Random("%s/pw/%s/%d" % (seed, inst.name, k)); L = header(inst)
        for h in hs[k:k + per]: L += inst.gen("a", rng) + inst.gen("b", rng) + pow_lines(inst, h, rng)
        jobs.append(("%s-pp-%d" % (inst.name, k // per), L + ["dump"]))
    return jobs
def polylife_lines(inst, h, rng):
    """One behaviour of PolyGen."""
    L = []
    p = inst.order
    for o, c, a, b, k in h:
        if o in ("add", "sub", "mul"): L.append("%s %s %s %s" % (o, c, a, b))
        elif o in ("neg", "dbl", "sq", "set", "rt"): L.append("%s %s %s" % (o, c, a))
        elif o == "setcoeff": L += ["setmpz u0 %d" % rng.randrange(1, p), "setcoeff %s u0 %d" % (c, k)]
        elif o == "setcoeffz": L += ["set0 u0", "setcoeff %s u0 %d" % (c, k)]
        elif o in ("setcoeff0", "setcoeff1"): L.append("%s %s %d" % (o, c, k))
        elif o == "constmul": L += ["setmpz u0 %d" % rng.randrange(1, p), "constmul %s u0 %s" % (c, a)]
        elif o == "constmul0": L += ["set0 u0", "constmul %s u0 %s" % (c, a)]
        elif o == "mulsi": L.append("mulsi %s %s %d" % (c, a, rng.choice([0, 1, -1, 2, p if p < 2**62 else 7, -p if p < 2**62 else -3])))
        elif o == "mulmpz": L.append("mulmpz %s %s %d" % (c, a, rng.choice([0, p, -p, 1, -1, rng.randrange(p), p * p + 1])))
        elif o in ("set0", "set1", "setx"): L.append("%s %s" % (o, c))
        elif o == "embed": L += ["setmpz u0 %d" % rng.randrange(1, p), "embed %s u0" % c]
        elif o == "embed0": L += ["set0 u0", "embed %s u0" % c]
        elif o == "setsi": L.append(rng.choice(["setsi %s %d", "setmpz %s %d"]) % (c, rng.choice([0, 1, -1, 5, p, -p]) if p < 2**62 else rng.choice([0, 1, -1, 5])))
        elif o == "rndmonic": L.append("rndmonic %s %d" % (c, rng.randrange(1, 5)))
        else: raise ValueError(o)
    regs = sorted({x for s in h for x in s[1:4] if x})
    L.append("cmp %s %s" % (regs[0], regs[-1]))
    return L
def life_jobs(inst, hs, seed, per, fn=polylife_lines, start=("set0 a", "set0 b", "set0 c"), extra=()):
    jobs = []
    for k in range(0, len(hs), per):
        rng = random.Random("%s/life/%s/%d" % (seed, inst.name, k)); L = header(inst) + list(extra)
        for h in hs[k:k + per]: L += list(start) + fn(inst, h, rng)
        jobs.append(("%s-life-%d" % (inst.name, k // per), L + ["dump"]))
    return jobs
def irred_jobs(impl, p, polys, per, tag=""):
    """is_irred and findroot on monic polynomials with the given lower coefficients."""
    jobs = []
    for k in range(0, len(polys), per):
        L = ["field F zn %s %d" % (impl, p), "field R poly F", "elem u0 F", "elem v0 F", "elem f0 R"]
        for f in polys[k:k + per]:
            L.append("set0 f0")
            for i, c in enumerate(f):
                if c: L += ["setmpz u0 %d" % c, "setcoeff f0 u0 %d" % i]
            L += ["setcoeff1 f0 %d" % len(f), "isirred f0", "findroot v0 f0"]
        jobs.append(("irred-%s-%s-%d" % (impl, tag or p, k // per), L))
    return jobs
def multi_lines(inst, rng):
    """Simultaneous powers with aliasing."""
    v = lambda: abs(scalar(inst, rng.choice(["0", "1", "2", "r", "r", "ord", "ord-1", "big", "ones", "pow2", "small", "mord"]), rng))
    x = lambda: rng.choice("abcd")
    L = []
    for r in "abcd":
        k = rng.random()
        L += ["set0 " + r] if k < .08 else ["set1 " + r] if k < .16 else inst.gen(r, rng) if k < .6 else []
    o = rng.choice(["pow2mpz", "pow3mpz", "pow2zn", "pow3zn"])
    if o == "pow2mpz": L += ["pow2mpz %s %s %d %s %d" % (x(), x(), v(), x(), v())]
    if o == "pow3mpz": L += ["pow3mpz %s %s %d %s %d %s %d" % (x(), x(), v(), x(), v(), x(), v())]
    if o[-1] == "n": L += ["setmpz k%d %d" % (i, v()) for i in (1, 2, 3)]
    if o == "pow2zn": L += ["pow2zn %s %s k1 %s k2" % (x(), x(), x())]
    if o == "pow3zn": L += ["pow3zn %s %s k1 %s k2 %s k3" % (x(), x(), x(), x())]
    return L
def batch_lines(inst, b, rng, two=None):
    L = []; cs, as_, bs = [], [], []
    for i, (case, al) in enumerate(b["slots"]):
        A, B, C = "x%d" % i, "y%d" % i, "z%d" % i
        L += inst.gen(A, rng) + inst.gen(B, rng) + rng.choice([["set0 " + C], inst.gen(C, rng)])
        L += {"gen": [], "OP": ["set0 " + A], "PO": ["set0 " + B], "OO": ["set0 " + A, "set0 " + B], "PP": ["set %s %s" % (B, A)], "PN": ["neg %s %s" % (B, A)],
              "O": ["set0 " + A], "T": ([] if not two else ["ecset %s %d %d" % ((A,) + two), "set %s %s" % (B, A)])}[case]
        as_.append(A); bs.append(B); cs.append({"c": C, "a": A, "b": B}[al])
    n = len(as_)
    return L + ["%s %d %s %s%s" % (b["kind"], n, " ".join(cs), " ".join(as_), "" if b["kind"] == "mdbl" else " " + " ".join(bs))]
def scen_jobs(inst, scens, seed, per, zr=None, tag=""):
    """Split scenarios into scripts of about `per` scenarios."""
    jobs = []
    for k in range(0, len(scens), per):
        rng = random.Random("%s/%s/%d/%d" % (seed, inst.name, k, len(scens)))
        L = header(inst, zr)
        for j, sc in enumerate(scens[k:k + per]):
            L += scen_lines(inst, sc, rng)
            if j % 50 == 49: L.append("dump")
        L.append("dump")
        jobs.append(("%s%s-%d" % (inst.name, tag, k // per), L))
    return jobs

def walk_job(inst, walk, seed, name, zr=None):
    rng = random.Random("%s/%s/%s" % (seed, inst.name, name))
    L = header(inst, zr)
    for j, (op, c, a, b, s) in enumerate(walk):
        L += opline(inst, op, c, a, b, s, rng)
        if j % 40 == 39: L.append("dump")
    L.append("dump")
    return ("%s-walk-%s" % (inst.name, name), L)

# ---- serialisation (behaviours of SerGen)
def shape(inst):
    """Nesting of the coordinates: ("zn", p) | ("l", n, inner) | ("ec", inner), from the structure's name."""
    if hasattr(inst, "shp"): return inst.shp
    z = ("zn", inst.order); n = inst.name
    m = re.match(r"quad-pm(\d+)", n)
    if m: return ("l", 2, ("l", int(m.group(1)), z))
    m = re.match(r"tower(\d+)", n)
    if m: return ("l", int(m.group(1)), ("l", 2, z))
    m = re.match(r"pm(\d+)", n)
    if m: return ("l", int(m.group(1)), z)
    if n.startswith(("fi", "quad")): return ("l", 2, z)
    if n.startswith("zn"): return z
    if n.startswith("poly"): return ("poly", z)
    if n.startswith("gf3"): return ("g3",)
    m = re.match(r"ec-(\w+)-(\d+)-(\d+)-(\d+)$", n)
    if m: return ("ec", ("zn", int(m.group(2))))
    m = re.match(r"(ec|gt)-(\w+?)(-G\d)?$", n)
    d = nt.read_param(m.group(2), REPO); t = d["type"]; q = ("zn", int(d.get("q") or d.get("p")))
    k = {"d": int(d.get("k", 6)) // 2, "g": 5}.get(t)
    if m.group(1) == "gt": return {"a": ("l", 2, q), "a1": ("l", 2, q), "e": q, "d": ("l", 2, ("l", k, q)), "g": ("l", 2, ("l", k, q)), "f": ("l", 6, ("l", 2, q))}[t]
    if m.group(3) == "-G2" and t in "dfg": return ("ec", ("l", 2, q) if t == "f" else ("l", k, q))
    return ("ec", q)
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"
def inbase(v, b):
    s = ""
    while v: s = DIG[v % b] + s; v //= b
    return s or "0"
def leaves(s): return 1 if s[0] == "zn" else 2 * leaves(s[1]) if s[0] == "ec" else s[1] * leaves(s[2])
def leafp(s): return s[1] if s[0] == "zn" else leafp(s[-1])
def width(p): return (p.bit_length() + 7) // 8
def shtext(s, rng, base, sep, big):
    if s[0] == "zn": return inbase(rng.choice([rng.randrange(s[1]), rng.randrange(s[1]), 0, 1, s[1] - 1, limbs_edge(rng, s[1])]) + (s[1] * rng.randrange(1, 4) if big else 0), base)
    if s[0] == "ec": return "[" + sep().join(shtext(s[1], rng, base, sep, big) for _ in range(2)) + "]"
    return "[" + sep().join(shtext(s[2], rng, base, sep, big) for _ in range(s[1])) + "]"
def mutated(inst, m, base, rng):
    s = shape(inst)
    sp = lambda: rng.choice(["", " ", "\t", "\n ", "  "])
    sep = (lambda: sp() + "," + sp()) if m in ("space", "lead") else lambda: ", "
    if hasattr(inst, "pts") and inst.pts and rng.random() < .7: x, y = rng.choice(inst.pts); t = "[" + inbase(x, base) + sep() + inbase(y, base) + "]"
    else: t = shtext(s, rng, base, sep, m == "big")
    k = rng.randrange(len(t)); ch = rng.choice("[],O 0z9-+.x")
    return {"none": t, "space": t.replace("[", "[ ").replace("]", " ]"), "lead": " \t\n" + t, "trail": t + rng.choice([" ", "]", "junk", ", 5", "[", "O"]), "del": t[:k] + t[k + 1:], "ins": t[:k] + ch + t[k:],
            "sub": t[:k] + ch + t[k + 1:], "trunc": t[:k], "case": t.upper(), "big": t, "empty": "", "junk": rng.choice(["hello", "{1,2}", "(1, 2)", ",", "]", "[[", "-5", "0x1f", "]["]),
            "O": rng.choice(["O", " O", "O1", "0", "[O]", "o", "O ]"]), "short": t[:t.rfind(",")] + "]" if "," in t else t, "long": t[:-1] + ", 1]" if "," in t else t, "inner": t.replace("[[", "[", 1)}[m]
def rawbytes(kind, n, p, w, rng):
    """n coordinates of w bytes."""
    out = b""
    for _ in range(n):
        if kind == "zeros": v = 0
        elif kind == "ones": v = 256 ** w - 1
        elif kind == "small": v = rng.randrange(3)
        elif kind == "ord": v = rng.choice([p, p + 1, p - 1, 0, 1])
        elif kind == "top": v = rng.choice([256 ** w - 1, 256 ** w - 256, p, rng.randrange(256 ** w)])
        elif kind == "in": v = rng.randrange(p)
        else: v = rng.randrange(256 ** w)
        out += (v % 256 ** w).to_bytes(w, "big")
    return out
def ser_lines(inst, sc, rng):
    L = []; s = shape(inst)
    if sc["kind"] == "fmt":
        f, args = "", []
        for d in sc["ds"]:
            f += {"B": "%B", "pct": "%%", "d": "%d", "5d": "%5d", "05d": "%05d", "-5d": "%-5d", "x": "%x", "s": "%s", "8s": "%8s", "c": "%c", "Zd": "%Zd", "Zx": "%Zx", "lit": rng.choice(["", "x", "e=", " ", "[", "\n"]), "u": "%u"}[d]
            if d == "B": args.append("e:" + rng.choice("abcd"))
            elif d in ("d", "5d", "05d", "-5d"): args.append("d:%d" % rng.choice([0, 1, -1, 42, -12345, 2**31 - 1, -2**31]))
            elif d in ("x", "u"): args.append("d:%d" % rng.choice([0, 1, 255, 48879, 2**31 - 1]))
            elif d == "c": args.append("d:%d" % rng.choice([33, 65, 122, 37]))
            elif d in ("s", "8s"): args.append("s:" + (rng.choice([b"", b"abc", b"%B", b"100%", b"longer than eight"]).hex() or "-"))
            elif d in ("Zd", "Zx"): args.append("z:%d" % rng.choice([0, 1, -1, rng.getrandbits(200), -rng.getrandbits(100)]))
        return ["fmt %s %s %s" % (sc["z"], f.encode().hex() or "-", " ".join(args))]
    if sc["kind"] in ("write", "round"):
        L += hist(inst, sc["h"], "a", "t", rng)
        ec1 = sc["op"] in ("tobytesc", "tobytesx", "rtc", "rtx") and s[0] == "ec"
        x = {"": ""}.get(sc["x"], sc["x"])
        if sc["kind"] == "write": return L + ["%s%s a %s" % ("nz " if ec1 else "", sc["op"], x)]
        if sc["d"] != "self": L += hist(inst, sc["d"], "c", "t", rng)
        return L + ["%s%s %s a %s" % ("nz " if ec1 else "", sc["op"], "a" if sc["d"] == "self" else "c", x)]
    L += hist(inst, sc["d"], "c", "t", rng)
    if sc["kind"] == "parse": return L + ["setstr c %s %s" % (sc["x"], mutated(inst, sc["h"], int(sc["x"]), rng).encode().hex() or "-")]
    p = leafp(s) if s[0] not in ("g3",) else 3; w = width(p)
    if sc["kind"] == "decode":
        if s[0] == "poly": n = rng.choice([0, 1, 2, 3, 7]); b = bytes([n, 0]) + rawbytes(sc["h"], n, p, w, rng)
        elif sc["op"] == "frombytes": b = rawbytes(sc["h"], leaves(s), p, w, rng)
        else:
            b = rawbytes(sc["h"], leaves(s[1]), p, w, rng)
            if sc["op"] == "frombytesc": b += bytes([rng.choice([0, 1, 1, 0, 2, 255])])
        if hasattr(inst, "pts") and inst.pts and sc["h"] == "in" and sc["op"] == "frombytes": b = b"".join(v.to_bytes(w, "big") for v in rng.choice(inst.pts))
        return L + ["%s c %s" % (sc["op"], b.hex())]
    if sc["kind"] == "hash":
        W = w * (leaves(s[1]) if s[0] == "ec" else 1)
        n = {"w-1": w - 1, "w": w, "w+1": w + 1, "2w": 2 * w, "2w+1": 2 * w + 1}.get(sc["x"]); n = int(sc["x"]) if n is None else n
        b = {"zeros": bytes(n), "ones": b"\xff" * n, "rnd": rng.randbytes(n), "fixed": (b"the same message every time" * 20)[:n]}[sc["h"]]
        return L + ["hash c " + (b.hex() or "-")]
    raise ValueError(sc)
def ser_jobs(inst, scens, seed, per, tag=""):
    jobs = []
    for k in range(0, len(scens), per):
        rng = random.Random("%s/ser/%s/%d" % (seed, inst.name, k)); L = header(inst)
        for x in "abcd": L += inst.gen(x, rng)
        for sc in scens[k:k + per]: L += ser_lines(inst, sc, rng)
        jobs.append(("%s-ser%s-%d" % (inst.name, tag, k // per), L + ["dump"]))
    return jobs

# ---- pairings (behaviours of PairGen, judged by PairTrace)
OPTS = {"a": ["miller", "miller-affine", "shipsey-stange"], "a1": ["miller", "miller-affine", "shipsey-stange"], "d": ["miller", "miller-affine"],
        "e": ["miller", "miller-affine", "shipsey-stange"], "g": ["miller", "miller-affine", "shipsey-stange"]}
class Pairing:
    """One pairing instance of a script; registers carry its name as a prefix."""
    def __init__(self, name, param, rng):
        self.n, self.param, self.rng = name, param, rng
        if "\n" in param:
            d = dict(l.split()[:2] for l in param.splitlines() if l.strip()); self.path = "@" + ",".join("=".join(l.split()[:2]) for l in param.splitlines() if l.strip())
        else:
            self.path = param if "/" in param else "%s/param/%s.param" % (REPO, param); d = nt.read_param_file(self.path)
        self.d = d; self.type = d["type"]; self.r = int(d.get("r") or d.get("n"))
        self.cof = nt.g2_cofactor(d) if self.type in "dgf" else None
        self.live = {}; self.hashes = [rng.randbytes(rng.choice([0, 1, 4, 20, 40])).hex() or "-" for _ in range(3)]
    def R(self, x): return self.n + x
    def group(self, x): return {"a": "G1", "b": "G1", "c": "G1", "x": "G2", "y": "G2", "z": "G2", "u": "GT", "v": "GT", "w": "GT", "k": "Zr"}[x]
    def gen(self, x):
        if self.group(x) == "GT" or self.type != "i" and self.rng.random() < .3: return ["hash %s %s" % (self.R(x), self.rng.choice(self.hashes) if self.group(x) != "GT" else self.rng.randbytes(6).hex())] if self.group(x) != "GT" else ["pair %s %s %s %s" % (self.n, self.R(x), self.R("a"), self.R("x"))]
        return ["random " + self.R(x)]
    def open(self):
        L = ["pairing %s %s" % (self.n, self.path)] + ["classmode %s.%s 1" % (self.n, g) for g in ("G1", "G2", "GT")]
        if self.cof: L.append("cofac %s.G2 %d" % (self.n, self.cof))
        L += ["elem %s %s.%s" % (self.R(x), self.n, self.group(x)) for x in "abcxyzuvwk"]
        for x in "axby": L += self.gen(x)
        self.live = {}
        return L
    def sc(self):
        r, g = self.r, self.rng
        return g.choice([0, 1, 2, 3, r, r - 1, r + 1, 2 * r, g.randrange(r), g.randrange(r), g.randrange(r * r), g.getrandbits(20), 1 << g.randrange(1, r.bit_length() + 8)])
    def arg(self, x, kind):
        """x becomes an element produced in the given way (its partner register is scratch)."""
        X, T, n = self.R(x), self.R({"a": "c", "x": "z"}[x]), self.n
        if kind.startswith("rel"):                # a small multiple of the other argument, where the groups are the same one
            if self.type not in ("a", "a1", "e", "i") or x == "a": kind = "gen"
            else: return ["mulmpz %s %s %d" % (X, self.R("a"), {"rel1": 1, "rel2": 2, "rel-1": self.r - 1, "rel-2": self.r - 2, "rel3": 3, "relhalf": (self.r + 1) // 2, "rel-half": (self.r - 1) // 2}[kind])]
        g = self.gen(x)
        return {"gen": g, "O": ["set0 " + X], "Osub": g + ["sub %s %s %s" % (X, X, X)], "Oaddneg": g + ["neg %s %s" % (T, X), "add %s %s %s" % (X, T, X)], "Oord": g + ["mulmpz %s %s %d" % (X, X, self.r)],
                "fresh": ["clear " + X, "elem %s %s.%s" % (X, n, self.group(x))], "neg": g + ["neg %s %s" % (X, X)], "dbl": g + ["dbl %s %s" % (X, X)], "scaled": g + ["mulmpz %s %s %d" % (X, X, self.sc())],
                "sum": g + self.gen_into(T, x) + ["add %s %s %s" % (X, X, T)], "diff": g + self.gen_into(T, x) + ["sub %s %s %s" % (X, X, T)], "rt": g + (["rt %s %s" % (X, X)] if self.type != "i" else []), "last": g + ["mulmpz %s %s %d" % (X, X, self.r - 1)]}[kind]
    def gen_into(self, T, x): return ["random " + T]
    def scen(self, s):
        R, n, g = self.R, self.n, self.rng
        L = []
        opts = OPTS.get(self.type)
        if s["opt"] and opts: L.append("option %s method %s" % (n, opts[int(s["opt"]) % len(opts)]))
        L += self.arg("a", s["a"]) + self.arg("x", s["b"])
        two = lambda: self.gen_into(R("b"), "a") + self.gen_into(R("y"), "x")
        P = {"plain": lambda: ["pair %s %s %s %s" % (n, R("u"), R("a"), R("x"))], "element": lambda: ["pair %s %s %s %s e" % (n, R("u"), R("a"), R("x"))],
             "pp": lambda: ["pairpp %s %sS %s" % (n, n, R("a")), "pairppapply %s %sS %s" % (R("u"), n, R("x")), "ppclear %sS" % n],
             "ppgone": lambda: ["pairpp %s %sS %s" % (n, n, R("a"))] + self.gen("a") + ["clear " + R("a"), "pairppapply %s %sS %s" % (R("u"), n, R("x")), "elem %s %s.G1" % (R("a"), n), "pairppapply %s %sS %s" % (R("v"), n, R("x")), "ppclear %sS" % n] + self.gen("a"),
             "ppopt": lambda: ["pairpp %s %sS %s" % (n, n, R("a"))] + (["option %s method %s" % (n, g.choice(opts))] if opts else []) + ["pairppapply %s %sS %s" % (R("u"), n, R("x"))] + (["option %s method %s" % (n, g.choice(opts))] if opts else []) + ["ppclear %sS" % n],
             "prod1": lambda: ["prodpair %s %s 1 %s %s" % (n, R("u"), R("a"), R("x"))],
             "prod2": lambda: two() + ["prodpair %s %s 2 %s" % (n, R("u"), " ".join([R("a"), R("b"), R("x"), R("y")]))],
             "prod2r": lambda: two() + ["prodpair %s %s 2 %s" % (n, R("u"), " ".join([R("b"), R("a"), R("y"), R("x")]))],
             "prodcancel": lambda: ["neg %s %s" % (R("b"), R("a")), "prodpair %s %s 2 %s" % (n, R("u"), " ".join([R("a"), R("b"), R("x"), R("x")]))],
             "prod3": lambda: two() + ["prodpair %s %s 3 %s" % (n, R("u"), " ".join([R("b"), R("a"), R("b"), R("x"), R("x"), R("y")]))],
             "prod5": lambda: two() + ["prodpair %s %s 5 %s" % (n, R("u"), " ".join([R("a"), R("b"), R("a"), R("b"), R("a"), R("x"), R("y"), R("y"), R("x"), R("x")]))],
             "bil": lambda: self.bil(), "coddh": lambda: self.coddh("a", "x")}
        return L + P[s["path"]]() + ["pair %s %s %s %s" % (n, R("v"), R("a"), R("x")), "cmp %s %s" % (R("u"), R("v")), "powmpz %s %s %d" % (R("w"), R("u"), self.r)]
    def bil(self):
        R, n = self.R, self.n; k, m = self.sc(), self.sc()
        return ["mulmpz %s %s %d" % (R("b"), R("a"), k), "setmpz %s %d" % (R("k"), m), "mulzn %s %s %s" % (R("y"), R("x"), R("k")), "pair %s %s %s %s" % (n, R("u"), R("b"), R("y")),
                "pair %s %s %s %s" % (n, R("v"), R("a"), R("x")), "powmpz %s %s %d" % (R("w"), R("v"), k), "powzn %s %s %s" % (R("w"), R("w"), R("k")), "cmp %s %s" % (R("u"), R("w"))]
    def coddh(self, x, y):
        R, n, g = self.R, self.n, self.rng; k = self.sc(); j = g.choice([k, k, -k % self.r, k + 1, self.sc()])
        return ["mulmpz %s %s %d" % (R("c"), R(x), k), "mulmpz %s %s %d" % (R("z"), R(y), j), "coddh %s %s %s %s %s" % (n, R(x), R("c"), R(y), R("z"))]
    def step(self, s):
        o, c, a, b = s[0], s[1], s[2], s[3]; R, n, g = self.R, self.n, self.rng
        if o in ("add", "sub"): return ["%s %s %s %s" % (o if self.group(c) != "GT" or g.random() < .5 else {"add": "mul", "sub": "div"}[o], R(c), R(a), R(b))]
        if o in ("neg", "dbl", "set"): return ["%s %s %s" % (o if self.group(c) != "GT" or g.random() < .5 else {"neg": "inv", "dbl": "sq", "set": "set"}[o], R(c), R(a))]
        if o in ("mulmpz", "powmpz"): return ["%s %s %s %d" % (o, R(c), R(a), self.sc())]
        if o == "mulzn": return ["setmpz %s %d" % (R("k"), self.sc()), "%s %s %s %s" % (g.choice(["mulzn", "powzn"]), R(c), R(a), R("k"))]
        if o == "random": return ["random " + R(c)]
        if o == "hash": return ["hash %s %s" % (R(c), g.choice(self.hashes))] if self.type != "i" else ["random " + R(c)]
        if o == "set0": return [g.choice(["set0 ", "set1 "]) + R(c)]
        if o == "remake": return ["clear " + R(c), "elem %s %s.%s" % (R(c), n, self.group(c))] + g.choice([[], self.gen(c)])
        if o == "rt": return ["rt %s %s" % (R(c), R(a))] if self.type != "i" else []
        if o == "pair": return ["pair %s %s %s %s%s" % (n, R(c), R(a), R(b), g.choice(["", " e"]))]
        if o == "prod":
            k = s[4]; A = [R(a)] + [R(g.choice("ab")) for _ in range(k - 1)]; B = [R(b)] + [R(g.choice("xy")) for _ in range(k - 1)]
            return ["prodpair %s %s %d %s %s" % (n, R(c), k, " ".join(A), " ".join(B))]
        if o == "option": return ["option %s method %s" % (n, OPTS[self.type][int(c) % len(OPTS[self.type])])] if self.type in OPTS else []
        if o == "coddh": return self.coddh(c, a)
        if o == "cmp": return ["cmp %s %s" % (R(c), R(a))]
        if o == "ppinit": self.live[c] = 1; return ["pairpp %s %s %s" % (n, R(c), R(a))]
        if o == "ppapply": return ["pairppapply %s %s %s" % (R(c), R(a), R(b))]
        if o == "ppclear": del self.live[c]; return ["ppclear " + R(c)]
        if o == "probe": return ["probe %s %s h%d k%d" % (n, os.path.basename(self.path), c, c)] if self.type != "i" else []
        if o == "reopen": return self.tour() + self.close() + self.open() + self.tour()
        raise ValueError(s)
    tours = False
    def tour(self):
        """One use of everything that could keep something for the next time: around the death of a pairing."""
        if not self.tours: return []
        R, n, g = self.R, self.n, self.rng; o = OPTS.get(self.type, [])
        L = ["cmp %s %s" % (R("a"), R("b")), "cmp %s %s" % (R("x"), R("y")), "pair %s %s %s %s" % (n, R("u"), R("a"), R("x")), "prodpair %s %s 2 %s" % (n, R("v"), " ".join(map(R, "abxy"))), "cmp %s %s" % (R("u"), R("v"))]
        if o: L += ["option %s method %s" % (n, g.choice(o)), "pair %s %s %s %s" % (n, R("w"), R("a"), R("x"))]
        if self.type != "i": L += ["rt %s %s" % (R("c"), R("a")), "hash %s %s" % (R("z"), g.choice(self.hashes)), "rt %s %s" % (R("z"), R("x"))]
        return L + self.coddh("a", "x") + ["random " + R(g.choice("bcyz")), "setmpz %s %d" % (R("k"), self.sc()), "powzn %s %s %s" % (R("u"), R("v"), R("k"))]
    def close(self):
        L = ["ppclear " + self.R(t) for t in self.live]; self.live = {}
        return L + ["pclear " + self.n]

class Exact(Pairing):
    """A pairing whose values are judged exactly (TateTrace)."""
    def open(self):
        L = ["pairing %s %s" % (self.n, self.path)] + ["elem %s %s.%s" % (self.R(x), self.n, self.group(x)) for x in "abcxyzuvwk"]
        L += ["elem %s %s.G1" % (self.R("g"), self.n), "elem %s %s.G2" % (self.R("h"), self.n)]
        if self.type == "e":                      # an auxiliary point outside the torsion subgroup
            q, a, b = (int(self.d[k]) for k in "qab"); x = 1
            while pow(x ** 3 + a * x + b, (q - 1) // 2, q) != 1: x += 1
            L += ["elem %ss %s.G1" % (self.n, self.n), "elem %sf %s.Fq" % (self.n, self.n), "setsi %sf %d" % (self.n, x), "ecfromx %ss %sf" % (self.n, self.n)]
        self.live = {}
        L += ["random " + self.R("g"), "random " + self.R("h")]
        return L
    def gen(self, x): return ["random " + self.R(x)]
    def arg(self, x, kind):
        if isinstance(kind, int): return ["mulmpz %s %s %d" % (self.R(x), self.R({"a": "g", "x": "h"}[x]), kind)]
        return Pairing.arg(self, x, kind)
