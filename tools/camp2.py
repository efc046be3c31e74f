"""Rendering of parameter-text, randomness, memory and other non-algebraic behaviours into driver scripts."""
import os, random
import nt
from algcamp import *

INTKEYS = {"exp2", "exp1", "sign1", "sign0", "l", "k", "m", "t"}
PER_KEY = {"drop", "garble", "trailjunk", "dupgood", "dupbad", "dupnum", "hex", "HEX", "oct", "bin", "neg", "big", "upper", "comafter", "glue", "oct8", "empty", "long"}
WHOLE = {"rev", "rot", "shuf", "extra", "extranum", "dangling", "com0", "comend", "comkey", "tabs", "crlf", "blank", "oneline", "lead", "notrail", "nul", "typelast", "typeb", "typeA", "typea2", "typeno", "type2", "hashval"}
LIMITS = {"str", "len", "len-1", "len+9", "half", "lastdigit", "zero", "one", "untilnl"}

def render(entries, ms, lim, rng):
    """entries: [(key, value)].  Returns (api, limit, bytes)."""
    E = [list(x) for x in entries]; sep, eol, pre, post, joiner = " ", "\n", "", "", None
    def num(): return [k for k in range(len(E)) if E[k][0] != "type"]
    tail = []
    for m, k in ms:
        idx = num()
        if m in PER_KEY:
            if not idx: continue
            e = E[idx[k % len(idx)]]; key, v = e[0], e[1]
            dec = v[v.startswith("-"):].isdigit()
            n = int(v) if dec and (v == "0" or not v.lstrip("-").startswith("0")) else None
            if m == "drop": E.remove(e)
            elif m == "garble": e[1] = rng.choice(["abc", "q", "--5", "5-", "0xZZ", "1.5", "+7", "0b2", "~", "12,3"])
            elif m == "trailjunk": e[1] = v + rng.choice(["x", "_", "g", ".", "-"])
            elif m == "dupgood": E.insert(E.index(e), [key, rng.choice(["1", "zzz", "77", "-4"])])
            elif m == "dupbad": E.append([key, "bad"])
            elif m == "dupnum": E.append([key, "12"])
            elif m in ("hex", "HEX") and n is not None: e[1] = ("-" if n < 0 else "") + ("0x%x" % abs(n) if m == "hex" else "0X%X" % abs(n))
            elif m == "oct" and n is not None: e[1] = ("-" if n < 0 else "") + "0%o" % abs(n)
            elif m == "oct8": e[1] = "0" + v.lstrip("-") + "8"
            elif m == "bin" and n is not None: e[1] = ("-" if n < 0 else "") + rng.choice(["0b", "0B"]) + bin(abs(n))[2:]
            elif m == "neg": e[1] = v[1:] if v.startswith("-") else "-" + v
            elif m == "big": e[1] = str(2**40 + 6) if key in INTKEYS else str(10**300 + rng.randrange(10**9))
            elif m == "upper": e[0] = key.upper()
            elif m == "comafter": e[1] = v + rng.choice([" # ", "\t#", " #x y\n# "]) + "remark 5"
            elif m == "glue": e[0] = key + rng.choice(["#", "=", ":"])
            elif m == "empty": e[1] = ""
            elif m == "long": e[1] = "0" * rng.choice([1, 30, 31, 32, 33, 64, 500]) + ("%o" % n if n is not None and n >= 0 else "7")
        elif m == "rev": E.reverse()
        elif m == "rot": E = E[len(E) // 2:] + E[:len(E) // 2]
        elif m == "shuf": rng.shuffle(E)
        elif m == "extra": E.insert(rng.randrange(len(E) + 1), ["unknown", "whatever"])
        elif m == "extranum": E.insert(rng.randrange(len(E) + 1), [rng.choice(["coeff99", "z", "typ", "types", "Q"]), "5"])
        elif m == "dangling": tail.append(rng.choice(["q", "r", "n", "type", "x"]))
        elif m == "com0": pre = "# a comment\n" + pre
        elif m == "comend": post += "# no newline at the end"
        elif m == "comkey": post += "#q 5\n#type z\n"
        elif m == "tabs": sep = "\t \t"
        elif m == "crlf": eol = "\r\n"
        elif m == "blank": eol = "\n\n \n"
        elif m == "oneline": eol = " "
        elif m == "lead": pre = " \t\r\n " + pre
        elif m == "notrail": joiner = True
        elif m == "nul": post = "\0" + "type zzz\nq x\n" + post
        elif m == "hashval": post += "note #5\nq\n"
        elif m == "typelast": E = [e for e in E if e[0] != "type"] + [e for e in E if e[0] == "type"]
        elif m in ("typeb", "typeA", "typea2"):
            for e in E:
                if e[0] == "type": e[1] = {"typeb": "b", "typeA": e[1].upper(), "typea2": e[1] + "2"}[m]
        elif m == "typeno": E = [e for e in E if e[0] != "type"]
        elif m == "type2": E.append(["type", rng.choice(["a", "d", "zz"])])
    t = eol.join(a + sep + b for a, b in E)
    t = pre + t + ("" if joiner else eol) + ("\n" if tail and joiner else "") + "".join(tail) + post
    b = t.encode(); L = len(b)
    if lim == "str": return "str", 0, b
    n = {"len": L, "len-1": L - 1, "len+9": L + 9, "half": L // 2, "zero": 0, "one": 1, "untilnl": max(1, b.rfind(b"\n")), "lastdigit": max(1, len(b.rstrip()) - 1)}[lim]
    return "buf", max(n, 0), b

def entries(text): return [tuple(l.split()[:2]) for l in text.splitlines() if l.strip()]

def param_lines(ents, sc, rng):
    api, lim, b = render(ents, sc["ms"], sc["lim"], rng)
    return ["param %s %d %s" % (api, lim, b.hex() or "-")]

SAFE = {"rev", "rot", "shuf", "extra", "extranum", "com0", "comend", "comkey", "tabs", "crlf", "blank", "oneline", "lead", "notrail", "typelast", "nul"}
def ptext_lines(nm, text, sc, rng):
    """A pairing made from an altered text whose numbers are unchanged, next to the unaltered text for the driver's own use."""
    ents = entries(text); api, lim, b = render(ents, sc["ms"], sc["lim"], rng)
    clean = "@" + ",".join("%s=%s" % e for e in ents)
    return ["pairingt %s %d %s %s" % (nm, lim, b.hex() or "-", clean)]

def memify(job):
    """The same script under allocation tracking, everything cleared at the end."""
    L = ["mem on"]; stack = []            # (kind, name) in creation order
    for l in job[1]:
        w = l.split()
        if not w or w[0] in ("mem", "classmode", "cofac", "dump", "heldmark", "held", "flags"): continue
        L.append(l)
        if w[0] == "elem": stack.append(("clear", w[1]))
        elif w[0] == "field" and w[2] != "base": stack.append(("fclear", w[1]))
        elif w[0] in ("pairing", "pairingt"): stack.append(("pclear", w[1]))
        elif w[0] == "ppinit": stack.append(("ppclear", w[1]))
        elif w[0] == "pairpp": stack.append(("ppclear", w[2]))
        elif w[0] in ("clear", "fclear", "pclear", "ppclear"):
            stack = [s for s in stack if s != (w[0], w[1])]
            if w[0] == "pclear":
                own = {x.split()[1] for x in job[1] if x.startswith("elem ") and x.split()[2].startswith(w[1] + ".")}
                stack = [s for s in stack if not (s[0] == "clear" and s[1] in own)]
    for k, n in reversed(stack): L.append("%s %s" % (k, n))
    return ("mem-" + job[0], L, {"spec": "HeapTrace", "variant": "mem"})

# ---- life cycles of objects
def life_universe(kind, rng):
    """(dependencies, open lines, use lines) per object."""
    U = {}
    def o(n, deps, op, use): U[n] = (deps, op, use)
    p = rng.choice([nt.next_prime(rng.getrandbits(100) | 1 << 99, lambda p: p % 4 == 3), 7, 1000003, 2**61 - 1])
    impl = "naive" if p < 2**64 else rng.choice(["mont", "faster", "fast", "naive", "fp"])
    def els(F, n, ops):
        for k in range(n):
            e = "%s_%d" % (F.lower(), k)
            o(e, {F}, ["elem %s %s" % (e, F)], lambda e=e: rng.choice(ops(e)))
    R = lambda e: [["random " + e], ["random " + e, "sq %s %s" % (e, e)], ["set1 " + e, "add %s %s %s" % (e, e, e)], ["tobytes " + e], ["outstr %s 10" % e], ["hash %s 0102" % e], ["powmpz %s %s 12345" % (e, e)], ["random " + e, "inv %s %s" % (e, e)], ["rt %s %s" % (e, e)], ["set0 " + e], ["setmpz %s 99999999999999999999999" % e]]
    if kind == "fields":
        o("F", set(), ["field F zn %s %d" % (impl, p)], lambda: ["# nothing"])
        els("F", 2, R)
        o("Q", {"F"}, ["field Q quad F"], lambda: ["# nothing"]); els("Q", 2, lambda e: R(e) + [["rtstr %s %s 10" % (e, e)], ["random %s" % e, "sq %s %s" % (e, e), "sqrt %s %s" % (e, e)]])
        o("X", {"F"}, ["field X poly F"], lambda: ["# nothing"])
        els("X", 2, lambda e: [["rndmonic %s %d" % (e, rng.randrange(1, 9))], ["rndmonic %s %d" % (e, rng.randrange(1, 7)), "sq %s %s" % (e, e)], ["set1 " + e], ["setx " + e], ["set0 " + e], ["setcoeff1 %s %d" % (e, rng.randrange(12))], ["setcoeff0 %s %d" % (e, rng.randrange(12))], ["dbl %s %s" % (e, e)], ["sub %s %s %s" % (e, e, e)], ["outstr %s 10" % e], ["tobytes " + e], ["rndmonic %s 3" % e, "isirred " + e], ["rt %s %s" % (e, e)]])
        o("C", {"F"}, ["elem ca F", "elem cb F", "set1 ca", "set0 cb", "field C ec F ca cb %d %s" % (p + 1, rng.choice(["-", "1", "4"])) if p % 4 == 3 else "field C ec F ca cb 100 -", "clear ca", "clear cb"], lambda: ["# nothing"])
        els("C", 2, lambda e: [["random " + e], ["dbl %s %s" % (e, e)], ["random " + e, "tobytes " + e], ["random %s" % e, "nz rtc %s %s" % (e, e)], ["set0 " + e], ["mulmpz %s %s 77" % (e, e)], ["outstr %s 10" % e], ["hash %s 616263" % e] if p > 2**50 else ["set0 " + e], ["mdbl 1 %s %s" % (e, e)], ["setstr %s 10 4f" % e], ["setstr %s 10 5b31" % e]])
        d = rng.choice([2, 3, 6, 4])
        o("M", {"F"}, ["field MX poly F", "elem mf MX"] + ["elem mt F"] + sum([["setmpz mt %d" % c, "setcoeff mf mt %d" % k] for k, c in enumerate(nt.irred_poly(d, p, rng))], []) + ["clear mt", "field M polymod mf", "clear mf"], lambda: ["# nothing"])
        U["M"] = (U["M"][0], U["M"][1], U["M"][2], ["fclear M", "fclear MX"])
        els("M", 2, lambda e: R(e) + [["rtstr %s %s 16" % (e, e)], ["random %s" % e, "sq %s %s" % (e, e), "sqrt %s %s" % (e, e)]])
        o("pp", {"F", "f_0"}, ["ppinit pp f_0"], lambda: ["pppow f_0 pp 123456789"])
        o("pq", {"C", "c_0"}, ["ppinit pq c_0"], lambda: ["pppow c_0 pq 123456789"])
    elif kind == "tern":
        o("T", set(), ["field T gf3m 97 12"], lambda: ["# nothing"]); R3 = lambda e: [["random " + e], ["sq %s %s" % (e, e)], ["set1 " + e, "add %s %s %s" % (e, e, e)], ["random " + e, "inv %s %s" % (e, e)], ["set0 " + e], ["cube %s %s" % (e, e)]]
        els("T", 2, R3)
        o("U", {"T"}, ["field U gf32m T"], lambda: ["# nothing"]); els("U", 2, R3)
        o("W", {"U"}, ["field W gf33m U"], lambda: ["# nothing"]); els("W", 2, R3)
        o("Z", set(), ["field Z z"], lambda: ["# nothing"])
        o("z_0", {"Z"}, ["elem z_0 Z"], lambda: rng.choice([["setmpz z_0 123456789012345678901234567890"], ["sq z_0 z_0"], ["neg z_0 z_0"], ["outstr z_0 10"], ["powmpz z_0 z_0 3", "set1 z_0"]]))
        o("N", set(), ["field N multiz"], lambda: ["# nothing"])
        for k in (0, 1): o("n_%d" % k, {"N"}, ["elem n_%d N" % k], lambda k=k: rng.choice([["setsi n_%d 5" % k], ["setmpz n_%d 99999999999999999999" % k, "mznewlist n_%d n_%d" % (k, k), "mznewlist n_%d n_%d" % (k, k)], ["setsi n_%d 7" % k, "mznewlist n_%d n_%d" % (k, k), "mzappend n_%d n_%d" % (k, k), "mul n_%d n_%d n_%d" % (k, k, k)], ["add n_%d n_%d n_%d" % (k, k, k)], ["outstr n_%d 10" % k], ["set0 n_%d" % k], ["neg n_%d n_%d" % (k, k)]]))
    else:
        par = kind; txt = "%s/param/%s.param" % (REPO, par) if "\n" not in par else "@" + ",".join("%s=%s" % e for e in entries(par))
        i = par == "i"
        o("P", set(), ["pairing P " + txt], lambda: [rng.choice(["option P method miller", "option P method miller-affine", "option P method shipsey-stange"])])
        G = lambda e: [["random " + e], ["dbl %s %s" % (e, e)], ["set0 " + e], ["mulmpz %s %s 1234567890123" % (e, e)], ["neg %s %s" % (e, e)], ["add %s %s %s" % (e, e, e)]]
        H = lambda e: G(e) + ([] if i else ([] if "\n" in par else [["hash %s 0a0b" % e]]) + [["tobytes " + e], ["outstr %s 10" % e], ["random " + e, "rtc %s %s" % (e, e)]])
        for g, ops in (("G1", H), ("G2", H), ("Zr", R), ("GT", lambda e: G(e) + ([] if i else [["tobytes " + e], ["outstr %s 10" % e]]))):
            for k in range(2):
                e = "%s_%d" % (g.lower(), k); o(e, {"P"}, ["elem %s P.%s" % (e, g)], lambda e=e, ops=ops: rng.choice(ops(e)))
        o("s", {"P", "g1_0"}, ["random g1_0", "pairpp P s g1_0"] if not "\n" in par else ["pairpp P s g1_0"], lambda: ["# nothing"])
        o("u", {"P", "s", "gt_0", "g2_0"}, ["pairppapply gt_0 s g2_0"], lambda: ["pairppapply gt_0 s g2_0"]); U["u"] += ([],)
        o("v", {"P", "gt_0", "g1_0", "g2_0"}, ["pair P gt_0 g1_0 g2_0"], lambda: ["pair P gt_0 g1_0 g2_0", "prodpair P gt_0 2 g1_0 g1_0 g2_0 g2_0"]); U["v"] += ([],)
        o("w", {"P", "g1_1"}, ["ppinit w g1_1"], lambda: ["pppow g1_1 w 12345678901234567890"])
        o("x", {"P", "gt_1", "zr_0"}, ["ppinit x gt_1"], lambda: ["pppowzn gt_1 x zr_0"])
    return U
def life_job(kind, hist, seed, name):
    rng = random.Random("%s/%s" % (seed, name)); U = life_universe(kind, rng); L = ["rng fn %d" % rng.randrange(10**6)]; live = []
    def close(x):
        if len(U[x]) > 3: return U[x][3]
        k = U[x][1][-1].split()
        return {"elem": ["clear " + x], "field": ["fclear " + x], "pairing": ["pclear " + x], "ppinit": ["ppclear " + x], "pairpp": ["ppclear " + x], "clear": ["fclear " + x]}[k[0]]
    for op, x in hist:
        if op == "open": L += U[x][1]; live.append(x)
        elif op == "close": L += close(x); live.remove(x)
        else: L += U[x][2]()
    for x in reversed(live): L += close(x)
    j = memify(("life", L))
    return ("life-%s" % name, j[1], j[2])
def life_deps(kind): return {x: U[0] for x, U in life_universe(kind, random.Random(1)).items()}
