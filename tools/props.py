"""The decision procedure of each property: which behaviours are generated, run and judged."""
import random, glob
from run import *
from algcamp import *
from camp3 import *

REG = {}
def prop(pid):
    def deco(f): REG[pid] = f; return f
    return deco

TECH = "TLA+ specification checked with TLC: behaviours enumerated by TLC are executed on the real library and every recorded step is validated against the specification (trace validation)"
NOTE = "Bounded: the scenario space of the generator specifications, instantiated on the listed structures; each recorded answer is decided exactly by the specification."
META, NA = {}, {}

P160 = 730750818665451459101842416358141509827966271787        # 160-bit prime (type d159-like size)
P521 = 2**521 - 1
P127 = 2**127 - 1
P61 = 2**61 - 1
P64 = 18446744073709551557                                      # largest 64-bit prime
P65 = 2**65 + 131
P128 = 2**128 - 159
P192 = 2**192 - 237
P512 = 8780710799663312522437781984754049815806883199414208211028653399266475630880222957078625179422662221423155858769582317459277713367317481324925129998224791
TINY = [3, 5, 7, 11, 13]

RING_UN = {"set", "neg", "dbl", "halve", "sq", "inv"}
RING_BIN = {"add", "sub", "mul", "div", "cmp"}
RING_SCA = {"mulmpz", "mulsi", "powmpz", "setsi", "setmpz", "addui"}
RING_SCALARS = {"0", "1", "2", "neg1", "ord", "ord-1", "mord", "r", "big", "si", "nsi", "lmin", "pow2", "ones"}

def scenarios(ctx, hists, dirty, un, bin_, sca, scalars, histsb=None):
    s = ctx.gen("AlgGen", dict(Hists=hists, HistsB=histsb or hists, Dirty=dirty, Un=un, Bin=bin_, Sca=sca, Scalars=scalars, NoEmit=False), "SC")
    random.Random(ctx.seed).shuffle(s)
    return s

def walks(ctx, n, depth, un, bin_, sca, nul, scalars, regs=("a", "b", "c", "d")):
    return ctx.gen("AlgWalk", dict(Regs=set(regs), Un=un, Bin=bin_, Sca=sca, Nul=nul, Scalars=scalars, Depth=depth, Walks=n, Seed=ctx.seed), "WK")


def alg(ctx, insts, hists, dirty, un, bin_, sca, scalars, n, per=300, walkn=0, depth=150, nul={"set0", "set1"}, histsb=None):
    """Queue a scenario and walk campaign over concrete structures (run by flush)."""
    def make():
        sc = scenarios(ctx, hists, dirty, un, bin_, sca, scalars, histsb)
        wk = walks(ctx, walkn * len(insts), depth, un, bin_, sca, nul, scalars) if walkn else []
        jobs = []
        for k, inst in enumerate(insts):
            m = len(sc) if n is None or n >= len(sc) else n
            o = (k * m) % len(sc)
            part = (sc[o:] + sc[:o])[:m]
            jobs += scen_jobs(inst, part, ctx.seed, per)
            for j in range(walkn): jobs.append(walk_job(inst, wk[k * walkn + j], ctx.seed, str(j)))
        ctx.note("%d shape-level scenarios enumerated by TLC; %d structures; %d walks of %d steps" % (len(sc), len(insts), len(wk), depth))
        return jobs
    later(ctx, make)

def later(ctx, make): ctx.pending.append(make)
def flush(ctx, wrap=None, **kw):
    """Generate everything queued, then execute and judge it."""
    jobs = [j for js in pmap(lambda f: f(), ctx.pending) for j in js]
    if wrap: jobs = [wrap(j) for j in jobs]
    ctx.pending = []
    random.Random(ctx.seed).shuffle(jobs)
    names = set(); out = []
    for j in jobs:
        nm = j[0]
        while nm in names: nm += "+"
        names.add(nm); out.append((nm,) + tuple(j[1:]))
    return ctx.campaign(out, **kw)

LOCK = ["the logging driver reports element values through the library's own conversion (element_to_mpz / item access), cross-checked by reading values back"]
ZN_H = ["fresh", "z_set0", "z_subcopy", "z_order", "z_mul0", "z_neg0", "o_set1", "o_divself", "v", "v2", "v_neg", "v_inv", "m_1", "v_halve"]

@prop("P01")
def p01(ctx):
    q = ctx.quick
    ctx.model("BigNatCheck.tla", "BigNatCheck.cfg", override=True)
    big = [("naive", P160), ("fast", P160), ("faster", P160), ("mont", P160), ("mont", P128), ("faster", P128), ("mont", P512), ("faster", P512), ("faster", P65),
           ("naive", P61), ("mont", P64), ("faster", P64), ("fast", P64), ("fast", P521), ("mont", P521), ("naive", P192), ("mont", P192), ("fp", P160)]
    insts = [zn_inst(i, p) for i, p in big]
    alg(ctx, insts, ZN_H, ["v", "z_subcopy"], RING_UN, RING_BIN, RING_SCA, RING_SCALARS, 800 if q else 4000, walkn=2 if q else 8, depth=200 if q else 600)
    # composite and even moduli (the exponent ring of type a1 pairings is one): no halving when even
    rng = random.Random(ctx.seed)
    comp = [zn_inst("naive", m, tag="c%d" % m.bit_length()) for m in (P61 * P127, 3 * 2**100, 2**64, 15)] + [zn_inst("mont", P61 * P127, tag="c188"), zn_inst("faster", P61 * P127, tag="c188"), zn_inst("fast", P61 * P127, tag="c188")]
    alg(ctx, comp, [h for h in ZN_H if h != "v_halve"], ["v", "z_subcopy"], RING_UN - {"halve"}, RING_BIN, RING_SCA, RING_SCALARS, 400 if q else 2500, walkn=1 if q else 4)
    # every value of tiny rings
    tiny = [("naive", 2), ("naive", 3), ("naive", 5), ("naive", 6)] + ([] if q else [("naive", 7), ("naive", 8), ("naive", 9), ("naive", 11), ("naive", 12), ("naive", 13), ("fast", 3), ("fast", 5), ("fast", 7), ("fast", 11)])
    for impl, m in tiny:
        un = RING_UN - (set() if m % 2 else {"halve"})
        alg(ctx, [zn_inst(impl, m, tag="all%d" % m)], ["n%d" % k for k in range(m)], ["n%d" % (m - 1), "n0"], un, RING_BIN, RING_SCA, {"0", "1", "2", "3", "neg1", "neg2", "ord", "ord+1", "big"}, None, per=400)
    flush(ctx)
    ctx.corrupt_check("c", scen_jobs(insts[3], scenarios(ctx, ["v"], ["v"], {"neg"}, {"add", "mul"}, set(), set()), ctx.seed, 50)[0][1])
    return "model_checking", LOCK

EXT_UN = {"set", "neg", "dbl", "halve", "sq", "inv"}
EXT_H = ["fresh", "z_set0", "z_subcopy", "z_mul0", "o_set1", "o_divself", "v", "v2", "v_neg", "v_inv", "v_sq", "m_1"]
EXT_SC = {"0", "1", "2", "neg1", "ord", "ord-1", "r", "si", "nsi", "big"}
EXT_SCA = {"mulmpz", "mulsi", "setsi", "setmpz"}
P7, P11 = 7, 11
P3M4 = 730750818665451459101842416358141509827966272987 if False else None

def p3m4(bits, rng): return nt.next_prime(rng.getrandbits(bits) | (1 << (bits - 1)), lambda p: p % 4 == 3)
def p1m4(bits, rng): return nt.next_prime(rng.getrandbits(bits) | (1 << (bits - 1)), lambda p: p % 4 == 1)

def ext_insts(ctx, big=True):
    """Extension fields of every kind the library has (outside characteristic three)."""
    rng = random.Random("ext%d" % ctx.seed)
    a, b, c, d = p3m4(160, rng), p1m4(160, rng), p3m4(512, rng), p3m4(96, rng)
    L = [quad_inst("fi", "mont", a), quad_inst("quad", "mont", b), quad_inst("fi", "faster", c), quad_inst("quad", "naive", 13), quad_inst("fi", "naive", 7),
         pm_inst("mont", b, 3, rng), pm_inst("mont", a, 6, rng, sparse=False), pm_inst("faster", d, 5, rng), pm_inst("naive", 7, 3, rng), pm_inst("mont", d, 2, rng), pm_inst("fast", d, 4, rng),
         pm_inst("naive", 7, 6, rng, sparse=False), pm_inst("naive", 11, 7, rng), tower_inst("mont", a, 3, rng), tower_inst("mont", p3m4(158, rng), 6, rng), quadtower_inst("mont", d, 3, rng), quadtower_inst("mont", d, 5, rng),
         tower_inst("naive", 7, 3, rng), quadtower_inst("naive", 5, 3, rng)]
    if not ctx.quick:
        L += [pm_inst("naive", 5, 1, rng, coeffs=[3, 1]), pm_inst("mont", d, 10, rng), pm_inst("naive", 3, 12, rng), quad_inst("quad", "fast", b), quad_inst("quad", "faster", P521), pm_inst("naive", 17, 6, rng, sparse=False),
              pm_inst("faster", a, 3, rng), pm_inst("mont", c, 3, rng), pm_inst("fast", P61, 3, rng)]
    return L

@prop("P03")
def p03(ctx):
    q = ctx.quick
    insts = ext_insts(ctx)
    alg(ctx, insts, EXT_H, ["v", "z_subcopy"], EXT_UN, RING_BIN, EXT_SCA, EXT_SC, 400 if q else 2000, per=200, walkn=1 if q else 6, depth=100 if q else 300)
    g3 = [g3_inst("gf3m", 97, 12), g3_inst("gf32m", 97, 12), g3_inst("gf33m", 97, 12), g3_inst("gf36m", 97, 12), g3_inst("gf3m", 5, 4), g3_inst("gf32m", 5, 4), g3_inst("gf36m", 5, 4), g3_inst("gf3m", 64, 3), g3_inst("gf3m", 2, 1)]
    if not q: g3 += [g3_inst("gf3m", 509, 358), g3_inst("gf3m", 127, 8), g3_inst("gf33m", 5, 4), g3_inst("gf3m", 239, 24), g3_inst("gf3m", 63, 26), g3_inst("gf3m", 128, 6), g3_inst("gf33m", 7, 2), g3_inst("gf36m", 7, 2)]
    alg(ctx, g3, ["fresh", "z_set0", "z_subcopy", "z_mul0", "o_set1", "o_divself", "v", "v2", "v_neg", "v_inv", "v_sq"], ["v", "z_subcopy"], {"set", "neg", "dbl", "sq", "inv", "cube"}, RING_BIN, set(), {"0"}, 400 if q else 1500, per=200, walkn=1 if q else 4, depth=100)
    flush(ctx)
    ctx.corrupt_check("c", scen_jobs(insts[5], scenarios(ctx, ["v"], ["v"], {"neg"}, {"add", "mul"}, set(), set()), ctx.seed, 30)[0][1])
    return "model_checking", LOCK

PARAMS = ["a", "a1", "d159", "d201", "d224", "e", "f", "g149"]
ALLPARAMS = PARAMS + ["i", "d105171-196-185", "d277699-175-167", "d278027-190-181"]
EQ = ["eq_copy", "eq_negneg", "eq_addsub", "eq_rt", "eq_add0", "eq_sub0", "eq_self", "ne_neg", "ne_dbl", "ne_zero"]
EQF = EQ + ["eq_dblhalve", "eq_invinv", "eq_muldiv", "eq_mul1", "eq_str", "ne_inc"]

def tiny_curves(ps, per, rng, even=False, cyclic=False):
    out = []
    for p in ps:
        cs = list(nt.curves(p)); rng.shuffle(cs); k = 0
        for a, b in cs:
            i = ec_tiny("naive", p, a, b)
            if even and i.order % 2: continue
            if i.order < 3: continue
            if cyclic and not any(nt.ec_order(P, a, p) == i.order for P in i.pts): continue
            out.append(i); k += 1
            if k >= per: break
    return out

@prop("P02")
def p02(ctx):
    q = ctx.quick
    rng = random.Random("p02%d" % ctx.seed)
    zn = [zn_inst(i, p) for i, p in [("naive", P160), ("fast", P160), ("faster", P160), ("mont", P160), ("mont", P512), ("faster", P128), ("mont", P128), ("fast", P64), ("faster", P64), ("mont", P64), ("fp", P61)]]
    alg(ctx, zn, ZN_H, ["v"], {"sign", "issqr"}, {"cmp"}, set(), {"0"}, 600 if q else None, per=300, walkn=2 if q else 8, depth=150, histsb=ZN_H + EQF)
    for p in (3, 7) if q else (3, 5, 7, 11, 13):
        alg(ctx, [zn_inst(i, p, tag="all%d" % p) for i in ("naive", "fast")], ["n%d" % k for k in range(p)], ["n0"], {"sign", "issqr"}, {"cmp"}, set(), {"0"}, None, histsb=["n%d" % k for k in range(p)])
    ext = ext_insts(ctx)
    if q: ext = [e for e in ext if not e.name.startswith(("fi-faster", "tower6", "pm6-mont"))]
    alg(ctx, ext, EXT_H, ["v"], {"sign", "issqr"}, {"cmp"}, set(), {"0"}, 200 if q else 1000, per=200, histsb=EXT_H + EQF)
    g3 = [g3_inst("gf3m", 97, 12), g3_inst("gf32m", 97, 12), g3_inst("gf36m", 97, 12), g3_inst("gf3m", 5, 4), g3_inst("gf33m", 97, 12), g3_inst("gf3m", 64, 3)]
    H3 = ["fresh", "z_set0", "z_subcopy", "z_mul0", "o_set1", "v", "v_neg", "v_inv", "v_sq"]
    alg(ctx, g3, H3, ["v"], set(), {"cmp"}, set(), {"0"}, 300 if q else None, histsb=H3 + ["eq_copy", "eq_negneg", "eq_addsub", "eq_add0", "eq_sub0", "eq_self", "ne_neg", "ne_zero", "eq_muldiv", "eq_mul1", "ne_inc"])
    HP = ["fresh", "z_set0", "z_subcopy", "z_mul0", "o_set1", "v", "v2", "v_neg", "v_sq", "v_dbl"]
    alg(ctx, [poly_inst("naive", 7), poly_inst("mont", P160), poly_inst("fast", P160), poly_inst("naive", 3)], HP, ["v"], set(), {"cmp"}, set(), {"0"}, 300 if q else None, histsb=HP + ["eq_copy", "eq_negneg", "eq_addsub", "eq_rt", "eq_add0", "eq_sub0", "eq_self", "ne_neg", "ne_zero", "eq_mul1", "ne_inc"])
    HE = ["fresh", "z_set0", "z_subcopy", "z_addneg", "z_mulmpz0", "v", "v2", "v_neg", "v_dbl"]
    ec = [ec_pair(p) for p in PARAMS] + tiny_curves([5, 7, 11], 2, rng) + [gt_pair(p) for p in ("a", "d159", "e", "f")] + [ec_pair("a", "G2"), ec_pair("e", "G2")]
    # comparison of twisted G2 elements is modulo the subgroup structure; exact comparison is claimed for G1, GT and symmetric G2
    alg(ctx, ec, HE, ["v"], set(), {"cmp"}, set(), {"0"}, 120 if q else 400, per=120, histsb=HE + EQ)
    flush(ctx)
    ctx.corrupt_check("c", scen_jobs(zn[3], scenarios(ctx, ["v"], ["v"], {"neg"}, {"cmp"}, set(), set()), ctx.seed, 50)[0][1], ops={"cmp"})
    return "model_checking", LOCK

POLY_ACTS = {"setcoeff", "setcoeffz", "setcoeff0", "setcoeff1", "add", "sub", "mul", "neg", "dbl", "sq", "set", "constmul", "constmul0", "mulsi", "mulmpz", "rt", "set0", "set1", "setx", "embed", "embed0", "setsi", "rndmonic"}

@prop("P04")
def p04(ctx):
    q = ctx.quick
    rng = random.Random("p04%d" % ctx.seed)
    ctx.model("PolyCheck.tla", "PolyCheck.cfg")
    insts = [poly_inst("naive", 3), poly_inst("naive", 7), poly_inst("mont", P160), poly_inst("fast", P160), poly_inst("faster", P128)]
    HP = ["fresh", "z_set0", "z_subcopy", "z_mul0", "o_set1", "v", "v2", "v_neg", "v_sq", "v_dbl", "m_1"]
    REL = ["eq_copy", "eq_negneg", "eq_addsub", "eq_add0", "ne_neg", "ne_zero", "ne_inc"]
    alg(ctx, insts, HP, ["v", "z_subcopy"], {"set", "neg", "dbl", "sq"}, {"add", "sub", "mul", "cmp"}, {"mulmpz", "mulsi", "setsi", "setmpz"},
        {"0", "1", "2", "neg1", "ord", "3"}, 500 if q else None, walkn=0, histsb=HP + REL)
    alg(ctx, insts, HP, ["v", "z_subcopy"], {"set"}, {"mul"}, {"powmpz"}, {"0", "1", "2", "3"}, 60 if q else None)
    def lives():
        hs = ctx.gen("PolyGen", dict(Regs={"a", "b", "c"}, Depth=12, Acts=POLY_ACTS, Degs={"lead", "over", "low", "below"}, NoEmit=False), "PY", sim=300 if q else 4000, depth=13)
        random.Random(ctx.seed).shuffle(hs); hs = hs[:6000 if q else 150000]
        two = ctx.gen("PolyGen", dict(Regs={"a", "b"}, Depth=2, Acts=POLY_ACTS - {"rndmonic"}, Degs={"lead", "over", "low", "below"}, NoEmit=False), "PY")
        ctx.note("%d polynomial lives of 12 steps, every life of 2 steps (%d)" % (len(hs), len(two)))
        js = []
        for k, i in enumerate(insts): js += life_jobs(i, hs[k::len(insts)], ctx.seed, 120)
        return js + life_jobs(insts[1], two if not q else two[ctx.seed % 3::3], ctx.seed, 800)
    later(ctx, lives)
    def irr():
        js = []
        for p, d in ((3, 4), (5, 3), (7, 2)) if q else ((3, 6), (5, 4), (7, 3), (11, 2), (13, 2)):
            ps = ctx.gen("PolyCheck", dict(P=p, D=d, Emitting=True), "PL")
            js += irred_jobs("naive", p, ps, 150)
            if not q: js += irred_jobs("fast", p, ps, 400)
        ctx.note("irreducibility and roots: every monic polynomial of small degree over small prime fields")
        for p in (P61, P160, 101, 10007):
            ps = []
            for d in (1, 2, 3, 4, 5, 6, 8) if q else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12):
                for _ in range(2 if q else 8): ps.append([rng.randrange(p) for _ in range(d)])
                ps.append(nt.irred_poly(d, p, rng)[:-1])
                roots = [rng.randrange(p) for _ in range(d)]; f = [1]
                for x in roots: f = nt.pmul(f, [-x % p, 1], p)
                ps.append(f[:-1])
                if d >= 4: g = nt.irred_poly(d // 2, p, rng); h = nt.irred_poly(d - d // 2, p, rng); ps += [nt.pmul(g, h, p)[:-1], nt.pmul(g, g, p)[:-1] if d % 2 == 0 else nt.pmul(g, h, p)[:-1]]
                ps.append([0] * d); ps.append([rng.randrange(p)] + [0] * (d - 1))
            js += irred_jobs("naive" if p < 2**60 else "mont" if p > 2**64 else "fast", p, ps, 30)
        return js
    later(ctx, irr)
    flush(ctx)
    ctx.corrupt_check("c", scen_jobs(insts[2], scenarios(ctx, ["v"], ["v"], {"neg"}, {"add", "mul"}, set(), set()), ctx.seed, 30)[0][1])
    return "model_checking", LOCK

def with_zr(i, m):
    if not hasattr(i, "zr"): i.zr = m
    return i

@prop("P05")
def p05(ctx):
    q = ctx.quick
    rng = random.Random("p05%d" % ctx.seed)
    ctx.model("AlgCheck.tla", "AlgCheck.cfg"); ctx.model("CurveCheck.tla", "CurveCheck.cfg")
    fields = [zn_inst("naive", P160), zn_inst("fast", P160), zn_inst("faster", P160), zn_inst("mont", P160), zn_inst("mont", P512), zn_inst("naive", 7), zn_inst("fast", 13), zn_inst("mont", P64), zn_inst("faster", P521)]
    exts = [e for e in ext_insts(ctx) if not e.name.startswith(("fi-faster", "pm6-mont"))] if q else ext_insts(ctx)
    tern = [g3_inst("gf3m", 97, 12), g3_inst("gf32m", 5, 4), g3_inst("gf33m", 5, 4), g3_inst("gf3m", 7, 2)]
    groups = [ec_pair(p) for p in PARAMS] + [gt_pair(p) for p in ("a", "d159", "e", "f", "a1", "g149")] + tiny_curves([5, 7, 11, 13], 2 if q else 6, rng)
    polys = [poly_inst("naive", 7), poly_inst("mont", P160)]
    for i in fields + exts: with_zr(i, nt.next_prime(i.order if i.order < 2**200 else 2**160))
    for i in groups: with_zr(i, i.order)
    for i in tern: with_zr(i, 3**11 - 2)
    H = ["z_set0", "z_subcopy", "o_set1", "v", "v2", "v_neg", "m_1"]
    SC = {"0", "1", "2", "3", "r", "big", "ord", "ord-1", "ord+1", "mord", "mord-1", "pow2", "ones", "small"}
    alg(ctx, fields, H, ["v", "z_set0"], {"set"}, {"mul"}, {"powmpz", "powzn", "mulzn"}, SC, 300 if q else None, per=300)
    alg(ctx, exts, H, ["v", "z_set0"], {"set"}, {"mul"}, {"powmpz", "powzn", "mulzn"}, SC, 100 if q else None, per=100)
    alg(ctx, tern, ["z_set0", "z_subcopy", "o_set1", "v", "v2", "v_neg"], ["v", "z_set0"], {"set"}, {"mul"}, {"powmpz", "powzn"}, SC, 100 if q else None, per=100)
    alg(ctx, polys, ["z_set0", "o_set1", "v", "m_1"], ["v"], {"set"}, {"mul"}, {"powmpz"}, {"0", "1", "2", "3"}, None, per=100)
    alg(ctx, groups, ["z_set0", "z_subcopy", "v", "v2", "v_neg"], ["v", "z_set0"], {"set"}, {"add"}, {"powmpz", "powzn", "mulzn", "mulmpz", "mulsi"}, SC, 150 if q else None, per=100)
    allp = fields + exts + groups
    def multi():
        js = []
        for i in allp + tern:
            n = 60 if q else 600
            for k in range(0, n, 60):
                r = random.Random("%d/mu/%s/%d" % (ctx.seed, i.name, k)); L = header(i)
                for x in "abcd": L += i.gen(x, r)
                for _ in range(60): L += multi_lines(i, r)
                js.append(("%s-multi-%d" % (i.name, k), L + ["dump"]))
        return js
    later(ctx, multi)
    def tabs():
        hs = ctx.gen("PowGen", dict(Tabs={"T", "U"}, Regs={"a", "b"}, Depth=9, NoEmit=False), "PW", sim=600 if q else 20000, depth=10)
        random.Random(ctx.seed).shuffle(hs); hs = hs[:1800 if q else 60000]
        short = ctx.gen("PowGen", dict(Tabs={"T"}, Regs={"a", "b"}, Depth=3, NoEmit=False), "PW")
        ctx.note("%d lives of precomputed tables of 9 steps; every life of 3 steps (%d)" % (len(hs), len(short)))
        js = []; L = allp + tern
        for k, i in enumerate(L): js += pow_jobs(i, hs[k::len(L)] + (short if not q else short[k % 4::4]), ctx.seed, 60 if q else 200)
        return js
    later(ctx, tabs)
    flush(ctx)
    ctx.corrupt_check("c", scen_jobs(fields[3], scenarios(ctx, ["v"], ["v"], {"set"}, {"mul"}, {"powmpz"}, {"r"}), ctx.seed, 30)[0][1], ops={"powmpz"})
    return "model_checking", LOCK

@prop("P06")
def p06(ctx):
    q = ctx.quick
    rng = random.Random("p06%d" % ctx.seed)
    ctx.model("CurveCheck.tla", "CurveCheck.cfg")
    SC = {"0", "1", "2", "3", "r", "big", "ord", "ord-1", "ord+1", "pow2", "small"}
    # every ordered pair of points of tiny curves
    tiny = tiny_curves([5, 7, 11], 3, rng) + tiny_curves([7, 13], 1, rng, even=True) if q else tiny_curves([5, 7, 11, 13, 17], 12, rng) + tiny_curves([7, 13, 19], 6, rng, even=True)
    for i in tiny:
        H = ["p%d" % k for k in range(len(i.pts) + 1)]
        alg(ctx, [with_zr(i, i.order)], H, ["p1"], {"set", "neg", "dbl"}, {"add", "sub", "cmp"}, {"mulmpz", "mulzn"}, {"0", "1", "2", "3", "ord", "ord-1", "ord+1"}, 700 if q else None, per=700)
    big = [ec_pair(p) for p in PARAMS] + [ec_pair("a", "G2"), ec_pair("f", "G2"), ec_pair("d159", "G2"), ec_pair("g149", "G2"), ec_pair("a1", "G2"), ec_pair("e", "G2")]
    HE = ["fresh", "z_set0", "z_subcopy", "z_addneg", "z_mulmpz0", "v", "v2", "v_neg", "v_dbl"]
    alg(ctx, big, HE, ["v", "z_subcopy"], {"set", "neg", "dbl"}, {"add", "sub"}, {"mulmpz", "mulsi", "mulzn"}, SC, 120 if q else 900, per=120, histsb=HE + ["eq_copy", "eq_addsub", "ne_neg", "ne_dbl", "ne_zero"], walkn=1 if q else 4, depth=60)
    def batch():
        bt = ctx.gen("BatchGen", dict(N=2, AddCases={"gen", "OP", "PO", "OO", "PP", "PN", "T"}, DblCases={"gen", "O", "T"}, Aliases={"c", "a", "b"}, NoEmit=False), "BT")
        b3 = ctx.gen("BatchGen", dict(N=5, AddCases={"gen", "OP", "PO", "OO", "PP", "PN", "T"}, DblCases={"gen", "O", "T"}, Aliases={"c", "a", "b"}, NoEmit=False), "BT", sim=600 if q else 6000, depth=7)
        random.Random(ctx.seed).shuffle(b3); b3 = b3[:900 if q else 20000]
        ctx.note("every batch of up to 2 slots (%d), %d random batches of up to 5" % (len(bt), len(b3)))
        js = []; L = tiny[:6] + big
        for k, i in enumerate(L):
            two = next(((x, y) for x, y in getattr(i, "pts", []) if y == 0), None)
            r = random.Random("%d/ba/%s" % (ctx.seed, i.name))
            part = (bt[k::3] if k < 3 or not q else r.sample(bt, 60)) + b3[k::len(L)]
            pre = header(i) + ["elem %s%d %s" % (x, n, i.f) for x in "xyz" for n in range(5)]
            for c in range(0, len(part), 200):
                lines = list(pre)
                for b in part[c:c + 200]: lines += batch_lines(i, b, r, two)
                js.append(("%s-batch-%d" % (i.name, c), lines + ["dump"]))
        return js
    later(ctx, batch)
    flush(ctx)
    ctx.corrupt_check("c", scen_jobs(big[2], scenarios(ctx, ["v"], ["v"], {"neg"}, {"add"}, set(), set()), ctx.seed, 30)[0][1], ops={"add"})
    return "model_checking", LOCK

@prop("P07")
def p07(ctx):
    q = ctx.quick
    rng = random.Random("p07%d" % ctx.seed)
    def allvals():
        """Every element of small fields; one script per field."""
        js = []
        def emit(name, inst, p, cnt):
            import itertools
            L = header(inst)
            for c in itertools.product(range(p), repeat=cnt):
                for i, v in enumerate(c): L += ["setmpz u0 %d" % v, "setitem a u0 %d" % i]
                L += ["issqr a", "sqrt c a", "sqrt a a"]
            js.append((name, L))
        for impl, p in [("naive", x) for x in (3, 5, 7, 11, 13, 17, 41)] + [("fast", x) for x in (3, 7, 13, 17, 97)] + ([] if q else [("naive", 193), ("naive", 257), ("fast", 257), ("naive", 641)]):
            i = zn_inst(impl, p, tag="sq%d" % p); L = header(i)
            for v in range(p): L += ["setmpz a %d" % v, "issqr a", "sqrt c a", "sqrt a a"]
            js.append((i.name, L))
        for kind, p in [("fi", 3), ("fi", 7), ("quad", 5), ("quad", 7), ("quad", 13), ("quad", 17)] + ([] if q else [("fi", 19), ("quad", 29), ("fi", 23), ("quad", 41)]):
            emit("sq-%s-%d" % (kind, p), quad_inst(kind, "naive", p), p, 2)
        for p, n in [(3, 2), (3, 3), (5, 2), (5, 3), (7, 2), (3, 4)] + ([] if q else [(7, 3), (3, 6), (5, 4), (13, 2), (11, 3)]):
            emit("sq-pm-%d-%d" % (p, n), pm_inst("naive", p, n, rng), p, n)
        return js
    later(ctx, allvals)
    big = [zn_inst("naive", P160), zn_inst("mont", p1m4(160, rng)), zn_inst("faster", P128), zn_inst("fast", nt.next_prime(2**150, lambda p: p % 256 == 1)), zn_inst("mont", nt.next_prime(2**500, lambda p: p % 1024 == 513)), zn_inst("faster", nt.next_prime(2**127, lambda p: p % 4096 == 1)), zn_inst("mont", P512), zn_inst("mont", P521)]
    big += [zn_inst(im, nt.prime_2adic(e, b), tag="adic%d" % e) for im, e, b in [("naive", 17, 40), ("mont", 34, 128), ("fast", 48, 96), ("naive", 70, 120), ("faster", 66, 160)] + ([] if q else [("mont", 130, 200), ("naive", 33, 60), ("naive", 96, 128), ("fast", 31, 33), ("naive", 257, 300)])]
    alg(ctx, big, ["z_set0", "z_subcopy", "o_set1", "m_1", "v", "v2", "v_neg", "v_sq"], ["v", "z_set0"], {"sqrt", "issqr"}, {"mul"}, set(), {"0"}, None, per=200)
    exts = [e for e in ext_insts(ctx) if not e.name.startswith("fi-faster")] if q else ext_insts(ctx)
    alg(ctx, exts, ["z_set0", "z_subcopy", "o_set1", "m_1", "v", "v2", "v_neg", "v_sq"], ["v", "z_set0"], {"sqrt", "issqr"}, {"mul"}, set(), {"0"}, 70 if q else None, per=70)
    def embedded():
        """Squares and non-squares of the base field seen in the extension."""
        js = []
        for e in exts:
            r = random.Random("%d/emb/%s" % (ctx.seed, e.name)); b = "u1" if any(" u1 " in x for x in e.pre if x.startswith("elem")) else "u0"
            L = header(e)
            for _ in range(12 if q else 60):
                L += ["set0 a"] + ["setmpz u0 %d" % r.randrange(e.order)] + (["setitem a u0 0"] if b == "u0" else ["set0 u1", "setitem u1 u0 %d" % r.randrange(2), "setitem a u1 %d" % r.randrange(2)]) + ["issqr a", "sqrt c a", "sqrt a a"]
            js.append(("emb-" + e.name, L))
        return js
    later(ctx, embedded)
    def curves():
        js = []
        for i in tiny_curves([5, 7, 11, 13], 4 if q else 20, rng, even=True, cyclic=True) + tiny_curves([5, 7, 11], 2, rng, cyclic=True):
            L = header(i) + ["issqr a"]
            for x, y in i.pts: L += ["ecset a %d %d" % (x, y), "issqr a"]
            js.append(("dbl-" + i.name, L))
        return js
    later(ctx, curves)
    flush(ctx)
    ctx.corrupt_check("c", scen_jobs(big[1], scenarios(ctx, ["v", "v_sq"], ["v"], {"sqrt"}, {"mul"}, set(), set()), ctx.seed, 30)[0][1], ops={"mul"})
    return "model_checking", LOCK


SER_K = dict(Hists=set(), Dirty=set(), WOps=set(), ROps=set(), DOps=set(), Bases=set(), Sizes=set(), Bytes=set(), Muts=set(), HLens=set(), HBytes=set(), Dirs=set(), MaxDirs=0, NoEmit=False)
def ser(ctx, insts, n, per=200, tag="", **kw):
    """Queue a serialisation campaign: behaviours of SerGen on each structure."""
    def make():
        sc = ctx.gen("SerGen", {**SER_K, **kw}, "SE")
        random.Random(ctx.seed).shuffle(sc)
        ctx.note("%d serialisation behaviours enumerated by TLC for %d structures" % (len(sc), len(insts)))
        js = []
        for k, i in enumerate(insts):
            m = len(sc) if n is None or n >= len(sc) else n
            o = (k * m) % len(sc); js += ser_jobs(i, (sc[o:] + sc[:o])[:m], ctx.seed, per, tag)
        return js
    later(ctx, make)

SH = {"fresh", "z_set0", "z_subcopy", "z_mul0", "o_set1", "v", "v2", "v_neg", "m_1"}
SHE = {"fresh", "z_set0", "z_subcopy", "z_addneg", "v", "v2", "v_neg", "v_dbl"}
BYTES = {"zeros", "ones", "small", "ord", "top", "in", "rnd"}
def ser_sets(ctx):
    rng = random.Random("ser%d" % ctx.seed); q = ctx.quick
    zn = [zn_inst(i, p) for i, p in [("naive", P160), ("fast", P160), ("faster", P160), ("mont", P160), ("mont", P512), ("faster", P128), ("mont", P64), ("fast", P64), ("naive", 13), ("naive", 257), ("fast", 7), ("mont", P521), ("fast", P521), ("naive", 2**61 - 1)]]
    zn += [zn_inst("naive", P61 * P127, tag="comp")]
    ext = ext_insts(ctx)
    ec = [ec_pair(p) for p in PARAMS] + tiny_curves([5, 7, 11, 13], 3 if q else 12, rng) + [ec_tiny("naive", 257, 3, 7)]
    ec2 = [ec_pair(p, "G2") for p in ("f", "d159", "g149", "d201")]
    gt = [gt_pair(p) for p in ("a", "d159", "e", "f", "a1", "g149")]
    return zn, ext, ec, ec2, gt

@prop("P10")
def p10(ctx):
    q = ctx.quick
    zn, ext, ec, ec2, gt = ser_sets(ctx)
    tern = [g3_inst("gf3m", 97, 12), g3_inst("gf3m", 5, 4), g3_inst("gf3m", 64, 3), g3_inst("gf3m", 63, 26)] + ([] if q else [g3_inst("gf3m", 509, 358), g3_inst("gf3m", 128, 6)])
    poly = [poly_inst("naive", 7), poly_inst("mont", P160), poly_inst("naive", 257)]
    ser(ctx, zn + ext, 200 if q else None, Hists=SH, Dirty={"v", "z_set0", "o_set1"}, WOps={"tobytes"}, ROps={"rt"}, DOps={"frombytes"}, Bytes=BYTES)
    ser(ctx, poly, None, Hists=SH, Dirty={"v", "z_set0", "o_set1"}, WOps={"tobytes"}, ROps={"rt"}, DOps={"frombytes"}, Bytes=BYTES)
    ser(ctx, ec, 150 if q else None, Hists=SHE, Dirty={"v", "z_set0", "fresh"}, WOps={"tobytes", "tobytesc", "tobytesx"}, ROps={"rt", "rtc", "rtx"}, DOps={"frombytes", "frombytesc", "frombytesx"}, Bytes=BYTES)
    ser(ctx, ec2, 80 if q else None, Hists=SHE, Dirty={"v", "z_set0", "fresh"}, WOps={"tobytes", "tobytesc", "tobytesx"}, ROps={"rt", "rtc", "rtx"}, DOps={"frombytes", "frombytesc", "frombytesx"}, Bytes=BYTES)
    ser(ctx, gt, 60 if q else None, Hists=SHE, Dirty={"v", "z_set0"}, WOps={"tobytes"}, ROps={"rt"})
    ser(ctx, tern, None, Hists={"fresh", "z_set0", "z_subcopy", "o_set1", "v", "v2", "v_neg"}, Dirty={"v", "z_set0"}, WOps={"tobytes"}, ROps={"rt"})
    def every():
        """All byte strings of short encodings; all elements of small fields."""
        js = []
        for impl, p in [("naive", 13), ("fast", 7), ("naive", 251)] + ([] if q else [("fast", 251), ("naive", 257)]):
            i = zn_inst(impl, p, tag="every%d" % p); L = header(i)
            for v in range(256 if p < 256 else 65536): L.append("frombytes a %s" % v.to_bytes(width(p), "big").hex())
            for v in range(p): L += ["setmpz a %d" % v, "tobytes a", "rt b a"]
            js.append((i.name, L))
        rng = random.Random("every")
        for i in tiny_curves([5, 7, 11], 2 if q else 8, rng):
            p = shape(i)[1][1]; L = header(i)
            for x in range(p + 2):
                for y in range(p + 2): L.append("frombytes a %s" % bytes([x, y]).hex())
            for x in range(0, 256, 1 if not q else 5):
                for y in (0, 1, 2): L.append("frombytesc b %s" % bytes([x, y]).hex())
                L.append("frombytesx b %s" % bytes([x]).hex())
            for x, y in i.pts: L += ["ecset a %d %d" % (x, y), "tobytes a", "rt b a", "rtc b a", "rtx b a", "rtc a a"]
            js.append((i.name + "-every", L))
        return js
    later(ctx, every)
    flush(ctx)
    return "model_checking", LOCK

TMUT = {"none", "space", "lead", "trail", "del", "ins", "sub", "trunc", "case", "big", "empty", "junk", "short", "long", "inner"}
@prop("P11")
def p11(ctx):
    q = ctx.quick
    zn, ext, ec, ec2, gt = ser_sets(ctx)
    B = {"2", "3", "10", "16", "36"} if q else {str(b) for b in range(2, 37)}
    S = {"0", "1", "2", "3", "H", "L-1", "L+0", "L+1", "L+20", "5"}
    D = {"v", "z_set0"}
    ser(ctx, zn, 200 if q else None, Hists=SH, Dirty=D, WOps={"outstr", "snprint"}, ROps={"rtstr"}, Bases=B, Sizes=S, Muts=TMUT)
    ser(ctx, ext, 100 if q else 2000, Hists=SH, Dirty=D, WOps={"outstr", "snprint"}, ROps={"rtstr"}, Bases=B, Sizes=S, Muts=TMUT)
    ser(ctx, ec, 120 if q else 2000, Hists=SHE, Dirty=D, WOps={"outstr", "snprint"}, ROps={"rtstr"}, Bases=B, Sizes=S, Muts=TMUT | {"O"})
    ser(ctx, ec2 + gt, 80 if q else 1000, Hists=SHE, Dirty=D, WOps={"outstr", "snprint"}, ROps={"rtstr"}, Bases=B, Sizes=S, Muts=TMUT | {"O"})
    ser(ctx, [poly_inst("naive", 7), poly_inst("mont", P160)], 150 if q else None, Hists=SH, Dirty=D, WOps={"outstr", "snprint"}, Bases=B, Sizes=S)
    some = [zn[3], zn[8], ext[0], ext[5], ec[0], gt[0]] + tiny_curves([7], 1, random.Random(1))
    ser(ctx, some, 400 if q else None, tag="fmt", per=300, Dirs={"B", "pct", "d", "5d", "05d", "-5d", "x", "s", "8s", "c", "Zd", "Zx", "lit", "u"}, Sizes=S | {"file"}, MaxDirs=2)
    def lists():
        hs = ctx.gen("SerGen", {**SER_K, "Dirs": {"B", "pct", "d", "05d", "x", "s", "8s", "c", "Zd", "lit"}, "Sizes": S | {"file"}, "MaxDirs": 5}, "SE", sim=300 if q else 3000, depth=7)
        random.Random(ctx.seed).shuffle(hs); hs = hs[:1500 if q else 30000]
        return [j for k, i in enumerate(some) for j in ser_jobs(i, hs[k::len(some)], ctx.seed, 300, "fmt5")]
    later(ctx, lists)
    flush(ctx)
    return "model_checking", LOCK

@prop("P12")
def p12(ctx):
    q = ctx.quick
    zn, ext, ec, ec2, gt = ser_sets(ctx)
    HL = {"0", "1", "2", "7", "20", "32", "w-1", "w", "w+1", "2w", "2w+1", "200", "300"}
    K = dict(Dirty={"v", "z_set0", "fresh"}, HLens=HL, HBytes={"zeros", "ones", "rnd", "fixed"})
    ser(ctx, zn, None, **K)
    ser(ctx, ext, 60 if q else None, **K)
    def good(i):                          # x -> x^2 + 1 reaches a point from every residue
        if not hasattr(i, "pts"): return True
        p, xs = shape(i)[1][1], {x for x, y in i.pts}
        return all(any(x in xs for x in nt.orbit(s, p)) for s in range(p))
    ec = [i for i in ec if good(i)]
    ser(ctx, ec, 30 if q else None, **K)
    ser(ctx, ec2, 10 if q else 120, per=30, **K)
    ser(ctx, gt, 25 if q else None, per=40, **K)
    def twice():
        """The same bytes in two instances of a pairing whose random choices differ."""
        js = []
        for p in PARAMS:
            for g in ("G1", "G2", "GT", "Zr"):
                if q and g == "GT" and p not in ("a", "f", "e"): continue
                L = ["rng fn 5", "pairing P %s/param/%s.param" % (REPO, p), "rng fn 99"] + ["pairing Q %s/param/%s.param" % (REPO, p), "elem a P.%s" % g, "elem b Q.%s" % g, "elem z Q.Zr"]
                r = random.Random("%s%s" % (p, g))
                for k in range((1 if p in ("e", "g149", "a1") or g == "G2" else 3) if q else 30):
                    h = r.randbytes(r.choice([1, 8, 20, 33, 64])).hex()
                    L += ["hash a " + h, "random z", "hash b " + h, "hash b %s" % r.randbytes(5).hex(), "hash b " + h]
                js.append(("twice-%s-%s" % (p, g), L))
        return js
    later(ctx, twice)
    flush(ctx)
    return "model_checking", LOCK


PARGS = {"gen", "O", "Osub", "Oaddneg", "Oord", "fresh", "neg", "dbl", "scaled", "sum", "diff", "rt", "last"}
PRELS = {"rel1", "rel2", "rel-1", "rel-2", "rel3", "relhalf", "rel-half"}
PPATHS = {"plain", "element", "pp", "ppgone", "ppopt", "prod1", "prod2", "prod2r", "prodcancel", "prod3", "prod5", "bil", "coddh"}
PKINDS = {"group", "scale", "make", "pair", "prod", "option", "coddh", "cmp", "ppinit", "ppapply", "ppclear"}
GENP = dict(Mode='"scen"', Ps=set(), Args=set(), Paths=set(), Opts={""}, Kinds=set(), Depth=1, NoEmit=False)
SPEED = {"a": 3, "a1": 12, "d159": 6, "d201": 7, "d224": 8, "e": 8, "f": 14, "g149": 12, "i": 10}
def pname(p): return os.path.basename(p) if "\n" not in p else "".join(p.split()[1:2]) + hashlib.sha256(p.encode()).hexdigest()[:8]
def pair_scen(ctx, params, paths, args, opts, total, per=30):
    def make():
        sc = ctx.gen("PairGen", {**GENP, "Paths": paths, "Args": args, "Opts": opts}, "PS")
        random.Random(ctx.seed).shuffle(sc)
        ctx.note("%d pairing scenarios enumerated by TLC (path x how each argument was made x algorithm); %d pairings" % (len(sc), len(params)))
        js = []
        for k, p in enumerate(params):
            m = len(sc) if total is None else min(total, len(sc)); o = (k * m) % len(sc); part = (sc[o:] + sc[:o])[:m]
            for j in range(0, len(part), per):
                rng = random.Random("%d/pr/%s/%d" % (ctx.seed, p, j)); P = Pairing("P", p, rng); L = ["rng fn %d" % rng.randrange(10**6)] + P.open()
                for s in part[j:j + per]: L += P.scen(s)
                js.append(("pair-%s-%d" % (pname(p), j // per), L + ["dump"] + P.close(), {"spec": "PairTrace"}))
        return js
    later(ctx, make)
def pair_life(ctx, groups, kinds, sims, depth, tag="life", mix=False, variants=("plain",)):
    """groups: list of {name: param}; every group is run on `cap` behaviours per script and sims scripts."""
    def make():
        js = []
        wk = walks(ctx, 24, 3 * depth, RING_UN - {"halve"}, RING_BIN, RING_SCA, {"set0", "set1"}, RING_SCALARS) if mix else []
        names = sorted({tuple(sorted(g)) for g in groups})
        pool = {}
        for ns in names:
            hs = ctx.gen("PairGen", {**GENP, "Mode": '"life"', "Ps": set(ns), "Opts": {"0", "1", "2"}, "Kinds": kinds, "Depth": depth}, "PL", sim=max(12, sims), depth=2 * depth + 2)
            random.Random(ctx.seed).shuffle(hs); pool[ns] = hs
        for k, g in enumerate(groups):
            hs = pool[tuple(sorted(g))]
            for j in range(sims):
                rng = random.Random("%d/%s/%d/%d" % (ctx.seed, tag, k, j)); P = {n: Pairing(n, p, rng) for n, p in g.items()}
                for x in P.values(): x.tours = mix
                L = ["rng fn %d" % rng.randrange(10**6)]
                inst = mixinst(k, rng) if mix else None
                for x in P.values(): L += ["tweakfp " + rng.choice(IMPLS)] * mix + x.open()
                if mix:
                    w = list(wk[(k * sims + j) % len(wk)]); L += header(inst)
                for s in hs[(k * sims + j) % len(hs)]:
                    if mix:
                        for op, c, a, b, sc in w[:3]: L += opline(inst, op, c, a, b, sc, rng)
                        w = w[3:]
                        if rng.random() < .1: L.append("tweakfp " + rng.choice(IMPLS))
                    L += P[s[0]].step(s[1:])
                L.append("dump"); left = list(P.values())
                for x in list(left):
                    L += [l for y in left for l in y.tour()] + x.close(); left.remove(x)
                js.append(("%s-%s-%d" % (tag, "-".join(map(pname, g.values())), j), L, {"spec": "PairTrace", "variant": variants[j % len(variants)]}))
        ctx.note("%d random lives of %d steps of %d pairing combinations" % (len(js), depth, len(groups)))
        return js
    later(ctx, make)

# Parameters of every type beyond the shipped ones: all sign combinations of the group order, k = 2, several sizes.
MEDIUM = sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "instances", "*.param")))
IMPLS = ["mont", "faster", "fast", "naive"]
def mixinst(k, rng):
    return [lambda: zn_inst("fp", P160), lambda: quad_inst("quad", "fp", P128), lambda: zn_inst("mont", P192), lambda: pm_inst("fp", P127, 3, rng), lambda: zn_inst("faster", P512), lambda: quad_inst("fi", "mont", P127)][k % 6]()

@prop("P08")
def p08(ctx):
    q = ctx.quick
    pair_scen(ctx, ALLPARAMS, {"plain", "element", "bil"}, PARGS, {""}, 250 if q else None, per=50)
    pair_scen(ctx, MEDIUM, {"plain", "element", "bil"}, PARGS, {"", "0", "1", "2"}, 100 if q else None, per=100)
    pair_scen(ctx, [p for p in ALLPARAMS if p in ("a", "a1", "e", "i")], {"plain", "element", "bil"}, PRELS, {"", "0", "1", "2"}, 60 if q else None, per=50)
    pair_life(ctx, [{"P": p} for p in ALLPARAMS], {"group", "scale", "make", "pair", "cmp"}, 5 if q else 30, 40 if q else 120)
    flush(ctx)
    return "model_checking", LOCK
@prop("P09")
def p09(ctx):
    q = ctx.quick
    pair_scen(ctx, ALLPARAMS, PPATHS - {"plain", "bil"}, PARGS, {"", "0", "1", "2"}, 240 if q else 2500, per=30 if q else 60)
    pair_scen(ctx, MEDIUM, PPATHS - {"plain", "bil"}, PARGS, {"", "0", "1", "2"}, 120 if q else 3000, per=60)
    pair_scen(ctx, [p for p in ALLPARAMS if p in ("a", "a1", "e", "i")], PPATHS - {"plain", "bil"}, PRELS, {"0", "1", "2"}, 60 if q else 1200, per=30)
    pair_life(ctx, [{"P": p} for p in ALLPARAMS] + [{"P": p} for p in MEDIUM], PKINDS, 6 if q else 30, 40 if q else 120)
    flush(ctx)
    return "model_checking", LOCK

@prop("P17")
def p17(ctx):
    """Every base and target of small cyclic groups under both methods, and sampled ones of larger groups."""
    q = ctx.quick
    small = ctx.gen("DlogGen", dict(Orders={2, 3, 4, 5, 6, 7, 8, 9, 10, 12} if q else set(range(1, 25)) | {30, 31}, Methods={"bf", "rho"}), "DG", timeout=600)
    ctx.note("every base and target of cyclic groups of order %s: %d logarithms per group" % (sorted({x[0] for x in small}), len(small)))
    ctx.campaign(dlog_jobs(small, ctx.seed, 150) + dlog_big(ctx.seed, 60 if q else 600, 18 if q else 24))
    ctx.corrupt_check("c", dlog_jobs([[7, 3, 2, "bf"], [7, 2, 5, "rho"]], ctx.seed, 5)[0][1], ops={"dlogbf", "dlogrho"})
    return "model_checking", LOCK

@prop("P23")
def p23(ctx):
    """Curves built every way, twisted and mapped; traces, trial division and non-residues: all small cases, and sampled large ones."""
    q = ctx.quick
    for p, k in [(5, 1), (5, 2)] if q else [(7, 1), (7, 2), (5, 3)]:
        cfg = os.path.join(ctx.dir, "bc%d%d.cfg" % (p, k))
        with open(cfg, "w") as f: f.write("INIT Init\nNEXT Next\nINVARIANT Law\nCHECK_DEADLOCK FALSE\nCONSTANTS P = %d\n  K = %d\n" % (p, k))
        ctx.model("BuildCheck.tla", cfg)
    base = dict(Mode="\"curve\"", Primes=set(), Step=1, Forms=set(), Tws=set(), Exts=set(), Degs=set(), Nums=set(), Lims=set(), Stops=set())
    g = lambda **kw: ctx.gen("BuildGen", {**base, **{k: ('"%s"' % v if k == "Mode" else v) for k, v in kw.items()}}, "BG", timeout=900)
    cur = g(Mode="curve", Primes={5, 7, 11} if q else {5, 7, 11, 13, 17, 19}, Step=1, Forms={"ab", "b", "j"}, Tws={0, 1, 2}, Exts={1, 2, 3})
    cur2 = g(Mode="curve", Primes={101, 103} if q else {101, 103, 1009, 1013}, Step=97 if q else 301, Forms={"ab", "b", "j"}, Tws={0, 1, 2}, Exts={1, 2, 3})
    tr = g(Mode="trace", Primes={5, 7, 11, 13}, Step=1, Degs=set(range(1, 13))) + g(Mode="trace", Primes={101, 1009}, Step=997, Degs=set(range(1, 13)))
    fa = g(Mode="factor", Nums=set(range(1, 130 if q else 1200)), Lims={0, 1, 2, 3, 4, 5, 7, 11, 100}, Stops={0, 1, 2, 3})
    nq = g(Mode="nqr", Primes={3, 5, 7, 11, 13, 17} | (set() if q else {19, 23, 29, 31, 37}))
    r = random.Random("p23/%d" % ctx.seed)
    for x in (cur, cur2, tr, fa): r.shuffle(x)
    ctx.note("enumerated by TLC: %d curve histories over the smallest fields and %d over larger ones, %d traces, %d trial divisions, %d non-residue choices" % (len(cur), len(cur2), len(tr), len(fa), len(nq)))
    if q: cur, cur2, tr, fa = cur[:500], cur2[:200], tr[:900], fa[:2400]
    else: cur, cur2 = cur[:12000], cur2[:3000]
    big = build_big(["d159", "d201", "d224", "g149"], lambda n: open(os.path.join(REPO, "param", n + ".param")).read(), ctx.seed, 4 if q else 40)
    ctx.campaign(build_jobs(cur, "curve", ctx.seed, 25) + build_jobs(cur2, "curve", ctx.seed + 7, 25) + build_jobs(big, "big", ctx.seed, 2) + build_jobs(tr + build_traces(ctx.seed, 200 if q else 3000), "trace", ctx.seed, 300)
                 + build_jobs(fa + build_nums(ctx.seed, 300 if q else 4000), "factor", ctx.seed, 400) + build_jobs(nq, "nqr", ctx.seed, 40))
    for m, its, ops in (("trace", [[7, 2, 3, 0]], {"tracen"}), ("factor", [[360, 0, 0]], {"tdiv"})): ctx.corrupt_check("c" + m, build_jobs(its, m, ctx.seed, 5)[0][1], ops=ops)
    return "model_checking", LOCK

@prop("P20")
def p20(ctx):
    """Several pairings and fields at once: interleaved lives, re-creation, option and implementation changes."""
    q = ctx.quick
    A = ALLPARAMS; groups = [{"P": p, "Q": p} for p in A]
    for k in range(len(A)): groups.append({"P": A[k], "Q": A[(k + 1 + ctx.seed % 3) % len(A)]})
    groups += [{"P": "d159", "Q": "d201"}, {"P": "d159", "Q": "g149"}, {"P": "a", "Q": "a1"}, {"P": "e", "Q": "a"}, {"P": "a", "Q": "a1", "X": "d159"}, {"P": "d201", "Q": "d224", "X": "g149"}, {"P": "f", "Q": "i", "X": "e"}]
    kinds = {"group", "scale", "make", "pair", "prod", "option", "coddh", "cmp", "ppinit", "ppapply", "ppclear", "reopen", "probe"}
    pair_life(ctx, groups, kinds, 3 if q else 16, 45 if q else 150, tag="multi", mix=True, variants=("asan", "plain", "asan"))
    flush(ctx)
    return "model_checking", LOCK

def tate(ctx, params, paths, args, opts, n, per, variant="plain", tag=""):
    def make():
        js = []
        pools = {}
        for k, (nm, p) in enumerate(params):
            A = args(p) if callable(args) else args
            key = tuple(sorted(A, key=str))
            if key not in pools:
                sc = ctx.gen("PairGen", {**GENP, "Paths": paths, "Args": set(A), "Opts": opts}, "PS"); random.Random(ctx.seed).shuffle(sc); pools[key] = sc
            sc = pools[key]; m = len(sc) if n is None else min(n, len(sc)); o = (k * m) % len(sc); part = (sc[o:] + sc[:o])[:m]
            for j in range(0, m, per):
                rng = random.Random("%d/tate/%s/%d" % (ctx.seed, nm, j)); P = Exact("P", p, rng); L = ["rng fn %d" % rng.randrange(10**6)] + P.open()
                for s in part[j:j + per]: L += P.scen(s)
                js.append(("tate%s-%s-%d" % (tag, nm, j // per), L + ["dump"] + P.close(), {"spec": "TateTrace", "variant": variant}))
        ctx.note("%d exact-pairing scripts over %d parameter sets" % (len(js), len(params)))
        return js
    later(ctx, make)
def tinies(q):
    """Tiny instances of every pairing type over prime fields: every pair of arguments is enumerated."""
    P = [("a-%d" % r, nt.tiny_a(r)) for r in (7, 11, 13)] + [("a1-%d" % n, nt.tiny_a1(n)) for n in (5, 7, 13)]
    P += [("d2-%d" % r, nt.tiny_mnt("d", 2, r)) for r in (5, 7, 11)] + [("d6-%d" % r, nt.tiny_mnt("d", 6, r)) for r in (7, 13)] + [("g-11", nt.tiny_mnt("g", 10, 11)), ("f-13", nt.tiny_f(-1))]
    if not q:
        P += [("a-%d" % r, nt.tiny_a(r, 1)) for r in (17, 19, 29, 31, 23)] + [("a1-%d" % n, nt.tiny_a1(n, 1)) for n in (11, 17, 19, 31)]
        P += [("d2-%d" % r, nt.tiny_mnt("d", 2, r)) for r in (13, 31)] + [("d6-%d" % r, nt.tiny_mnt("d", 6, r, 5, 1)) for r in (19, 31)] + [("d10-11", nt.tiny_mnt("d", 10, 11)), ("g-31", nt.tiny_mnt("g", 10, 31))]
    return P
def ordof(p): return int(dict(l.split()[:2] for l in p.splitlines()).get("r") or dict(l.split()[:2] for l in p.splitlines())["n"])
@prop("P22")
def p22(ctx):
    q = ctx.quick
    tate(ctx, [(p, p) for p in ("a", "e", "d159", "d201", "d224", "f", "g149")], {"plain", "pp", "prod2", "bil"}, PARGS, {"", "0", "1", "2"}, 6 if q else 60, 2 if q else 6)
    tate(ctx, tinies(q), {"plain", "pp", "prod3"}, lambda p: set(range(ordof(p))), {"", "0", "1", "2"}, 200 if q else None, 100, variant="asan", tag="tiny")
    flush(ctx)
    return "model_checking", LOCK

from camp2 import *
def ptexts(q):
    T = [(p, open("%s/param/%s.param" % (REPO, p)).read()) for p in PARAMS + ["i"]]
    T += [(n, open(os.path.join(os.path.dirname(MEDIUM[0]), n + ".param")).read()) for n in ("amm", "apm", "emm", "emp")]
    T += [("d2-7", nt.tiny_mnt("d", 2, 7)), ("d10-11", nt.tiny_mnt("d", 10, 11))]
    return T
R_REQS = {"mpz:" + k for k in RLIMITS} | {"bits:%d" % b for b in (1, 7, 8, 9, 63, 64, 65, 160)} | {"elem:" + x for x in ("F", "N", "Q", "K", "X", "T", "3", "9", "27", "E", "G1", "G2", "GT", "Zr", "I", "IT")} | {"monic:"}
@prop("P13")
def p13(ctx):
    q = ctx.quick
    heavy = ["a", "d159", "e", "f", "a1"] if q else ["a", "a1", "d159", "d201", "d224", "e", "f", "g149"]
    lv = ctx.gen("RandGen", dict(Reqs=R_REQS, Sources=RSOURCES, TapeLen=6, Segs=6), "RG", sim=220 if q else 3000, depth=20)
    num = ctx.gen("RandGen", dict(Reqs={r for r in R_REQS if r[:4] in ("mpz:", "bits")} | {"elem:F", "elem:N", "elem:T"}, Sources={"file", "det1", "fne1"}, TapeLen=6, Segs=6), "RG", sim=400 if q else 6000, depth=20)
    random.Random(ctx.seed).shuffle(lv); random.Random(ctx.seed).shuffle(num)
    lv, num = lv[:220 if q else 3000], num[:400 if q else 6000]
    ctx.note("%d lives of a program's randomness over all structures and %d over numbers only; small structures drawn until every element came up" % (len(lv), len(num)))
    ctx.campaign(rand_jobs(lv, ctx.seed, 10 if q else 20, heavy) + rand_jobs(num, str(ctx.seed) + "n", 60, ["a"]) + cover_jobs(ctx.seed))
    ctx.corrupt_check("c", ["rng fn 5 log", "field F zn naive 1009", "elem x F", "random x", "mpzrandom 1000000"], spec="RandTrace", ops={"random", "mpzrandom"})
    return "model_checking", LOCK
@prop("P14")
def p14(ctx):
    q = ctx.quick
    T = ptexts(q)
    opt = {"spec": "ParamTrace", "variant": "asan"}
    def texts():
        K = set(range(14))
        one = ctx.gen("ParamGen", dict(PerKey=PER_KEY, Whole=WHOLE, Keys=K, Limits=LIMITS, MaxMut=1, NoEmit=False), "PM")
        two = ctx.gen("ParamGen", dict(PerKey=PER_KEY, Whole=WHOLE, Keys=set(range(3)), Limits={"str", "len-1", "half"}, MaxMut=2, NoEmit=False), "PM")
        random.Random(ctx.seed).shuffle(one); random.Random(ctx.seed).shuffle(two)
        ctx.note("%d single and %d double alterations of parameter texts enumerated by TLC" % (len(one), len(two)))
        js = []
        for k, (nm, t) in enumerate(T):
            n1, n2 = (160, 160) if q else (len(one), 4000)
            part = (one[k * n1 % len(one):] + one)[:n1] + (two[k * n2 % len(two):] + two)[:n2]
            es = entries(t)
            for j in range(0, len(part), 40):
                rng = random.Random("%d/par/%s/%d" % (ctx.seed, nm, j)); L = ["mem track"]
                for s in part[j:j + 40]: L += param_lines(es, s, rng)
                js.append(("param-%s-%d" % (nm, j // 40), L, opt))
        return js
    later(ctx, texts)
    def pairs():
        sc = ctx.gen("ParamGen", dict(PerKey={"hex", "bin", "dupgood", "comafter", "long"}, Whole=SAFE, Keys=set(range(14)), Limits={"str", "len", "len+9"}, MaxMut=1, NoEmit=False), "PM")
        bad = ctx.gen("ParamGen", dict(PerKey={"drop", "garble", "upper"}, Whole={"typeb", "typeno"}, Keys=set(range(14)), Limits={"str", "half"}, MaxMut=1, NoEmit=False), "PM")
        random.Random(ctx.seed).shuffle(sc); random.Random(ctx.seed).shuffle(bad)
        js = []
        for k, (nm, t) in enumerate(T + tinies(q)):
            n = 6 if q else 60
            for j in range(n):
                rng = random.Random("%d/ptx/%s/%d" % (ctx.seed, nm, j))
                L = ["mem track", "rng fn 3", "heldmark"] + ptext_lines("P", t, sc[(k * n + j) % len(sc)], rng) + ["pclear P"]
                L += ptext_lines("Q", t, {**bad[(k * n + j) % len(bad)]}, rng)[:1] if bad[(k * n + j) % len(bad)]["ms"] else []
                L += ["pclear Q", "held"]
                js.append(("ptext-%s-%d" % (nm, j), L, opt))
        return js
    later(ctx, pairs)
    flush(ctx)
    return "model_checking", LOCK

def lives(ctx, kinds, n, length, cap):
    """Random and exhaustive short life cycles of objects."""
    def make():
        js = []
        groups = {}
        for k in kinds:
            d = life_deps(k); groups.setdefault(json.dumps({x: sorted(v) for x, v in sorted(d.items())}), []).append(k)
        for g, ks in groups.items():
            d = json.loads(g); deps = "{" + ",".join('<<"%s","%s">>' % (x, y) for x in d for y in d[x]) + "}"
            hs = ctx.gen("LifeGen", dict(Objs=set(d), MaxLen=length, Final=True, NoEmit=False), "LF", sim=n, depth=length + 1, defs={"Deps": deps})
            random.Random(ctx.seed).shuffle(hs)
            for a, k in enumerate(ks):
                for j in range(cap): js.append(life_job(k, hs[(a * cap + j) % len(hs)], ctx.seed, "%s-%d" % (os.path.basename(k) if "\n" not in k else "tiny%d" % a, j)))
        ctx.note("%d life cycles of %d steps over %d universes of objects" % (len(js), length, len(kinds)))
        return js
    return make
class Collect(Ctx):
    """Runs another property's generation only; its scripts are kept instead of executed."""
    def __init__(self, pid, ctx): Ctx.__init__(self, pid, "quick", ctx.seed); self.jobs = []
    def campaign(self, jobs, **kw): self.jobs += jobs; return []
    def model(self, *a, **k): return None
    def corrupt_check(self, *a, **k): return None
def borrowed(ctx, pids, n, lines):
    """Scripts of other properties under allocation tracking: n of each kind of script, cut after some lines."""
    js = []
    def one(pid):
        c = Collect(pid, ctx); REG[pid](c); r = random.Random("%d/borrow/%s" % (ctx.seed, pid)); kinds = {}
        for j in c.jobs:
            if HEAVY.search(pid + "-" + j[0]): continue
            if len(j) < 3 or j[2].get("driver", "drv") == "drv": kinds.setdefault(re.sub(r"[\d+].*", "", j[0]), []).append(j)
        out = []
        for k in sorted(kinds):
            js = kinds[k]; r.shuffle(js)
            out += [memify(("%s-%s" % (pid, j[0]), j[1][:lines])) for j in js[:n]]
        return out
    for x in pmap(one, pids): js += x
    ctx.note("%d scripts borrowed from %s" % (len(js), ", ".join(pids)))
    return js
HEAVY = re.compile(r"P05-gt-[fg].*pp|P12-ec-a1|P07-emb-(tower|pm6|quad-pm5)|P21-mz-walk")      # slow under allocation tracking; items of lists are handed out to be kept
BORROW = ["P04", "P05", "P06", "P07", "P12", "P13", "P15", "P17", "P21", "P22", "P23"]
@prop("P16")
def p16(ctx):
    q = ctx.quick; rng = random.Random("p16%d" % ctx.seed)
    for mk in [lives(ctx, ["fields", "tern"], 40 if q else 300, 80 if q else 200, 20 if q else 200), lives(ctx, ALLPARAMS + [t for n, t in tinies(True)], 40 if q else 200, 50 if q else 120, 3 if q else 20)]: later(ctx, mk)
    flush(ctx)
    # the behaviours of the other properties, under allocation tracking
    later(ctx, lambda: borrowed(ctx, BORROW, 2 if q else 20, 80 if q else 400))
    alg(ctx, [zn_inst(i, p) for i, p in [("naive", P160), ("fast", P64), ("faster", P128), ("mont", P160), ("mont", P512), ("faster", P65), ("mont", P64), ("fp", P61)]], ZN_H, ["v", "z_subcopy"], RING_UN, RING_BIN, RING_SCA, RING_SCALARS, 100 if q else 1500, walkn=1, depth=100)
    alg(ctx, ext_insts(ctx), EXT_H, ["v", "z_subcopy"], EXT_UN, RING_BIN, EXT_SCA, EXT_SC, 60 if q else 600, walkn=1, depth=60)
    alg(ctx, [g3_inst("gf3m", 97, 12), g3_inst("gf32m", 97, 12), g3_inst("gf33m", 5, 4), g3_inst("gf36m", 97, 12)], ["fresh", "z_set0", "v", "v_inv"], ["v"], {"set", "neg", "dbl", "sq", "inv", "cube"}, RING_BIN, set(), {"0"}, 60 if q else 400, walkn=1, depth=60)
    zn, ext, ec, ec2, gt = ser_sets(ctx); S = {"0", "1", "H", "L-1", "L+0", "L+20"}; D = {"v", "z_set0"}; n = 25 if q else 400
    ser(ctx, zn + ext + gt, n, Hists=SH, Dirty=D, WOps={"outstr", "snprint"}, ROps={"rtstr"}, Bases={"2", "10", "16"}, Sizes=S, Muts=TMUT)
    ser(ctx, ec + ec2, n, Hists=SHE, Dirty=D, WOps={"outstr", "snprint"}, ROps={"rtstr"}, Bases={"10", "16"}, Sizes=S, Muts=TMUT | {"O"})
    ser(ctx, ec + ec2, n, tag="b", Hists=SHE, Dirty=D, WOps={"tobytes", "tobytesc", "tobytesx"}, ROps={"rt", "rtc", "rtx"}, DOps={"frombytes", "frombytesc", "frombytesx"}, Bytes=BYTES)
    ser(ctx, [zn[3], ext[0], ec[0], gt[0]], 100 if q else 1000, tag="fmt", per=300, Dirs={"B", "pct", "05d", "s", "Zd"}, Sizes=S | {"file"}, MaxDirs=2)
    pair_scen(ctx, ALLPARAMS, PPATHS, PARGS, {"", "0", "1", "2"}, 30 if q else 600, per=30 if q else 60)
    pair_life(ctx, [{"P": p} for p in ALLPARAMS] + [{"P": p, "Q": "a"} for p in ALLPARAMS], PKINDS | {"reopen"}, 1 if q else 10, 30 if q else 100)
    flush(ctx, wrap=lambda j: j if j[0].startswith("mem-") else memify(j), bundle=40)
    return "model_checking", LOCK

MZ_KINDS = {"leaf", "newlist", "append", "bin", "mul", "div", "un", "sq", "pow", "sca", "item", "const", "cmp", "look", "assign", "text"}
@prop("P21")
def p21(ctx):
    q = ctx.quick
    z = z_inst(); H = ["fresh", "z_set0", "z_subcopy", "z_mul0", "z_neg0", "o_set1", "v", "v2", "v_neg", "m_1", "v_after0"]
    alg(ctx, [z], H, ["v", "z_subcopy"], {"set", "neg", "dbl", "halve", "sq", "inv", "issqr", "sqrt", "sign"}, RING_BIN, {"mulmpz", "mulsi", "setsi", "setmpz", "addui"}, {"0", "1", "2", "neg1", "r", "big", "si", "nsi", "lmin", "pow2", "ones"}, 3000 if q else None, per=300, histsb=H + ["eq_copy", "eq_negneg", "eq_addsub", "eq_self", "ne_neg", "ne_inc", "ne_zero"])
    alg(ctx, [z], H, ["v"], {"set"}, {"sub"}, {"powmpz"}, {"0", "1", "2", "3", "small"}, 150 if q else None, per=100)
    alg(ctx, [z], H, ["v"], {"neg", "halve", "set"}, {"add", "sub", "div", "cmp"}, {"mulsi", "addui", "setsi"}, {"0", "1", "2", "neg1", "si", "nsi", "lmin"}, 10, walkn=3 if q else 20, depth=150)
    def mz():
        ws = ctx.gen("MzGen", dict(Regs={"a", "b", "c"}, Depth=14, Kinds=MZ_KINDS, Leaves=LEAVES, Targets=TARGETS, MaxW=18, MaxD=4, NoEmit=False), "MZ", sim=500 if q else 8000, depth=60)
        sh = ctx.gen("MzShape", dict(Width=2, Deep=2, Ops={"add", "sub", "mul", "cmp", "div", "neg", "sq", "assign", "ecassign"}), "MS", timeout=600)
        random.Random(ctx.seed).shuffle(sh); ctx.note("%d lives of multinomial registers; every pair of multinomials up to depth 2 and width 2 under every operation and aliasing: %d" % (len(ws), len(sh)))
        return mz_jobs("walk", ws, mz_walk, ctx.seed, 40) + mz_jobs("shape", sh[:3000] if q else sh, mz_shape, ctx.seed, 120) + z_io_jobs(1500 if q else 20000, ctx.seed)
    later(ctx, mz)
    flush(ctx, wrap=lambda j: (j[0], j[1], {"spec": "IntTrace"}))
    ctx.corrupt_check("c", mz_jobs("c", ctx.gen("MzShape", dict(Width=1, Deep=1, Ops={"add"}), "MS"), mz_shape, ctx.seed, 5)[0][1], spec="IntTrace", ops={"add"})
    return "model_checking", LOCK

XX_KINDS = {"new", "copy", "del", "un", "bin", "scale", "val", "cmp", "size", "pair", "pcopy"}
@prop("P18")
def p18(ctx):
    """Objects of the C++ wrapper through their lives; the same behaviours under allocation tracking; texts given to its constructor."""
    q = ctx.quick
    try: build_driver("drvxx", "asan"), build_driver("drvxx", "mem")
    except Infra as e:
        if "C++ driver does not compile" not in str(e): raise
        ctx.fail("compile", "a program that uses every member of the wrapper does not compile against include/pbcxx.h\n" + str(e)); return "model_checking", LOCK
    hs = ctx.gen("XxGen", dict(Kinds=XX_KINDS, Depth=45 if q else 150, NoEmit=False), "XX", sim=24 if q else 300, depth=500 if q else 2000)
    random.Random(ctx.seed).shuffle(hs)
    js = xx_jobs(ALLPARAMS, hs, ctx.seed, 4 if q else 40)
    ctx.note("%d lives of C++ objects of %d steps" % (len(js), 45 if q else 150))
    mem = []
    for j in js[ctx.seed % 3::3]:
        m = memify((j[0], j[1])); mem.append((m[0], m[1], {**m[2], "driver": "drvxx"}))
    pair_scen(ctx, ALLPARAMS, {"plain", "bil"}, PARGS, {""}, 30 if q else 300, per=30)
    pair_life(ctx, [{"P": p} for p in ALLPARAMS], PKINDS | {"reopen"}, 1 if q else 8, 30 if q else 100)
    flush(ctx, wrap=lambda j: (j[0], j[1], {"spec": "PairTrace", "driver": "drvxx"}))
    sc = ctx.gen("ParamGen", dict(PerKey={"hex", "bin", "dupgood", "comafter", "long", "drop", "garble", "upper"}, Whole=SAFE | {"typeb", "typeno", "typeA"}, Keys=set(range(14)), Limits={"len"}, MaxMut=1, NoEmit=False), "PM")
    random.Random(ctx.seed).shuffle(sc); tx = []
    for k, (nm, t) in enumerate(ptexts(True)):
        n = 24 if q else len(sc); L = ["rng fn 3"]; rng = random.Random("%d/xt/%s" % (ctx.seed, nm))
        for j in range(n):
            m = sc[(k * n + j) % len(sc)]; L += ptext_lines("Q%d" % j, t, m, rng)
        tx.append(("xtext-%s" % nm, L, {"spec": "ParamTrace", "driver": "drvxx", "variant": "asan"}))
    ctx.campaign(js + mem + tx)
    ctx.corrupt_check("c", js[0][1], spec="XxTrace", driver="drvxx", ops={"xcopy"})
    return "model_checking", LOCK

# CM discriminants and limits that are known to lead somewhere: those of the shipped parameters and small ones.
KNOWN_CM = [(6, 105171, 500), (6, 62003, 500), (6, 9563, 500), (6, 496659, 500), (6, 277699, 500), (6, 278027, 500), (10, 1666603, 500), (10, 28267, 120), (10, 29707, 80)]
def gen_texts(ctx, reqs, name):
    """Parameter texts the generators write for some requests."""
    d = os.path.join(ctx.dir, name); os.makedirs(d, exist_ok=True); sc, lg = os.path.join(d, "s"), os.path.join(d, "l"); T = []
    for k, L in enumerate(reqs):
        open(sc, "w").write("\n".join(L) + "\n"); ctx.drive(sc, lg)
        for x in ctx._lines(lg):
            e = json.loads(x)
            if "text" in e: T.append(("%s%d" % (name, k), bytes(e["text"]).decode()))
    return T
@prop("P15")
def p15(ctx):
    """Generators, CM searches and class polynomials against the equations of each type; the parameters made are then used."""
    q = ctx.quick; opt = {"spec": "GenTrace"}; asan = {**opt, "variant": "asan"}
    rq = ctx.gen("GenGen", dict(Orders={"5", "7", "1000003", "1000000007", str(P61 * 1000003), str(P127), str(3 * P61 * P127), str(P512)}, SizesF={24, 31, 40, 57, 80, 120, 158} if q else set(range(24, 200, 3)), SizesI={10, 40, 80, 100, 150, 300} if q else {8, 10, 20, 30, 40, 50, 60, 80, 100, 120, 150, 200, 300, 400, 600, 892},
                 SearchTo=260 if q else 3000, Limits={40, 130} if q else {20, 40, 130, 400}, Stops={0, 1, 2}, Gens={9999, 0, 1}, MaxD=420 if q else 3000), "GN",
                 defs={"SizesA": "{<<10,20>>, <<20,24>>, <<30,60>>, <<40,100>>, <<64,128>>, <<100,130>>, <<160,512>>, <<224,300>>}" if q else "{<<r,q>> : r \\in {8,10,16,20,30,40,63,64,65,100,128,160,224,256}, q \\in {12,20,24,40,60,100,128,130,160,300,512,1024}}",
                       "SizesE": "{<<20,60>>, <<24,70>>, <<30,100>>, <<64,160>>, <<100,230>>, <<160,400>>}" if q else "{<<r,q>> : r \\in {20,24,30,40,64,100,128,160}, q \\in {60,100,160,230,400,600,1020}}"}, timeout=600)
    R = random.Random(ctx.seed); R.shuffle(rq)
    gens = [r for r in rq if r[0] == "gen"]; cms = [r for r in rq if r[0] == "cmsearch"]; hil = [r for r in rq if r[0] == "hilbert"]
    cms = cms[:1500 if q else 12000]
    ctx.note("%d generator requests, %d CM searches, class polynomials of all %d fundamental discriminants up to %d" % (len(gens), len(cms), len(hil), 420 if q else 3000))
    def lines(rs, n): return ["mem track", "rng fn %d" % n] + [" ".join(map(str, r)) for r in rs]
    js = []
    for s in range(3 if q else 12): js += [("gen-%d-%s" % (s, "-".join(map(str, g))[:60]), lines([g], R.randrange(10**6)), asan if s == 0 else opt) for g in gens]
    js += [("cm-%d" % j, lines(cms[j:j + 25], R.randrange(10**6)), asan if j % 75 == 0 else opt) for j in range(0, len(cms), 25)]
    js += [("cmknown-%d-%d" % (k, D), lines([("cmsearch", k, D, l, 0, -1, 1), ("cmsearch", k, D, l, 1, 0 if D < 30000 else -1, 1)], R.randrange(10**6)), opt) for k, D, l in KNOWN_CM]
    js += [("hilbert-%d" % j, lines(hil[j:j + 10], 1), asan if j % 50 == 0 else opt) for j in range(0, len(hil), 10)]
    js += [("hilbertbig", lines([("hilbert", D, 1) for D in (9563, 28267, 29707)], 1), opt)]
    ctx.model("GenCheck.tla", "GenCheck.cfg")
    ctx.campaign(js)
    ctx.corrupt_check("c", lines([("gen", "a", 30, 60), ("gen", "f", 40, 0)], 3), spec="GenTrace", ops={"gen"})
    if ctx.viol: return "model_checking", LOCK
    # the parameters made lead to a working pairing
    use = [("gen", "a", 30, 60), ("gen", "a", 60, 200), ("gen", "a1", 1000003, 0), ("gen", "a1", P61 * 1000003, 0), ("gen", "e", 30, 100), ("gen", "e", 40, 150), ("gen", "f", 40, 0), ("gen", "f", 70, 0), ("gen", "i", 40, 0),
           ("cmsearch", 6, 43, 130, 0, 1, 1), ("cmsearch", 6, 9563, 300, 1, 0, 1), ("cmsearch", 10, 29707, 80, 0, 0, 1)]
    ts = gen_texts(ctx, [["rng fn %d" % R.randrange(10**6), " ".join(map(str, u))] for u in use for _ in range(1 if q else 8)], "made")
    pair_scen(ctx, [t for _, t in ts], PPATHS, PARGS, {"", "0", "1", "2"}, 60 if q else 400, per=60)
    pair_life(ctx, [{"P": t} for _, t in ts], PKINDS, 1 if q else 6, 40 if q else 120)
    ctx.note("%d freshly generated parameter texts used for pairings" % len(ts))
    flush(ctx)
    return "model_checking", LOCK

def calc_jobs(ctx, start, n, easy, stmts=8, depth=3, heavy=False):
    o = ctx.gen("InterpGen", dict(Start={start}, Depth=depth, Stmts=stmts, Easy=easy), "IP", sim=n, depth=6000)
    texts = list(dict.fromkeys(x["text"] for x in o))
    rng = random.Random("%s%s%s" % (ctx.seed, start, easy)); rng.shuffle(texts)
    jobs = []
    for k, t in enumerate(texts[:n]):
        runs = []
        if easy: runs = [{"mode": "easy", "text": t}]
        else:
            runs = [{"mode": m, "text": t} for m in (["stdin", "file"] if not heavy else [["stdin", "file"][k % 2]])]
            if "#" not in t and k % 3 == 0: runs.append({"mode": "stdin", "text": t.replace("\n", " ")})      # everything on one line
        jobs.append(("%s.%s.%d" % (start[2:], "y" if easy else "n", k), [json.dumps(r) for r in runs]))
    return jobs
@prop("P19")
def p19(ctx):
    q = ctx.quick
    f = 1 if q else 12
    jobs = []
    for start, n in (("$.int", 110), ("$.fun", 110), ("$.bad", 60), ("$.fld", 90)):
        jobs += calc_jobs(ctx, start, n * f, False) + calc_jobs(ctx, start, (n // 4) * f, True)
    grp = calc_jobs(ctx, "$.grp", 14 * f, False, stmts=5, depth=2, heavy=True) + calc_jobs(ctx, "$.grp", 2 * f, True, stmts=3, depth=2, heavy=True)
    chk = [jobs[0][1][0]]
    ctx.open = 0
    ctx.campaign(jobs + grp, spec="InterpTrace", variant="asan", driver="calc", timeout=60)
    n = sum(len(j[1]) for j in jobs + grp)
    ctx.note("%d runs of %d generated programs; %d of them reach, at some statement, something the language leaves open and are judged up to there" % (n, len(jobs) + len(grp), ctx.open))
    if ctx.open > n // 5: raise Infra("too many generated programs leave the defined language: %d of %d" % (ctx.open, n))
    ctx.corrupt_check("c", ['{"mode": "stdin", "text": "1+2*3;\\n"}'], spec="InterpTrace", variant="asan", driver="calc", ops={"run"})
    return "model_checking", LOCK
