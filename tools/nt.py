"""Number theory used only to choose instances (never to judge the library)."""
import random

def is_prime(n):
    if n < 2: return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0: return n == p
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def next_prime(n, cond=lambda p: True):
    n += 1
    while not (is_prime(n) and cond(n)): n += 1
    return n

def prime_2adic(s, bits):
    """A prime of about the given size with exactly 2^s dividing p - 1."""
    k = (1 << max(1, bits - s)) + 1
    while not is_prime(k * 2 ** s + 1): k += 2
    return k * 2 ** s + 1

# polynomials over F_p, low degree first
def strip(a):
    while a and a[-1] == 0: a.pop()
    return a
def pmod(a, f, p):
    a = a[:]; n = len(f) - 1; inv = pow(f[-1], -1, p)
    while len(a) > n:
        c = a.pop() * inv % p
        if c:
            for i in range(n): a[len(a) - n + i] = (a[len(a) - n + i] - c * f[i]) % p
    return strip(a)
def pmul(a, b, p):
    if not a or not b: return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i + j] = (r[i + j] + x * y) % p
    return strip(r)
def ppow(a, e, f, p):
    r = [1]
    for b in bin(e)[2:]:
        r = pmod(pmul(r, r, p), f, p)
        if b == "1": r = pmod(pmul(r, a, p), f, p)
    return r
def psub(a, b, p):
    n = max(len(a), len(b)); a = a + [0] * (n - len(a)); b = b + [0] * (n - len(b))
    return strip([(x - y) % p for x, y in zip(a, b)])
def pgcd(a, b, p):
    while b: a, b = b, pmod(a, b, p)
    return a
def irreducible(f, p):
    n = len(f) - 1
    if n == 1: return True
    x = [0, 1]
    primes = [d for d in range(2, n + 1) if n % d == 0 and is_prime(d)]
    fr = [pmod(x, f, p)]
    for _ in range(n): fr.append(ppow(fr[-1], p, f, p))
    if psub(fr[n], fr[0], p): return False
    for d in primes:
        g = psub(fr[n // d], fr[0], p)
        if not g or len(pgcd(f, g, p)) > 1: return False
    return True
def irred_poly(n, p, rng, sparse=False):
    while True:
        f = [rng.randrange(p) for _ in range(n)] + [1]
        if sparse:
            f = [rng.randrange(1, p)] + [0] * (n - 1) + [1]
        if irreducible(f, p): return f

# F_p[s]/(s^2-d)
def q2mul(a, b, d, p): return ((a[0] * b[0] + d * a[1] * b[1]) % p, (a[0] * b[1] + a[1] * b[0]) % p)
def q2pow(a, e, d, p):
    r = (1, 0)
    for b in bin(e)[2:]:
        r = q2mul(r, r, d, p)
        if b == "1": r = q2mul(r, a, d, p)
    return r

def curve_points(p, a, b):
    sq = {}
    for y in range(p): sq.setdefault(y * y % p, []).append(y)
    return [(x, y) for x in range(p) for y in sq.get((x * x * x + a * x + b) % p, [])]
def ec_add(P, Q, a, p):
    if P is None: return Q
    if Q is None: return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0: return None
        l = (3 * P[0] * P[0] + a) * pow(2 * P[1], -1, p) % p
    else: l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
    x = (l * l - P[0] - Q[0]) % p
    return (x, (l * (P[0] - x) - P[1]) % p)
def ec_order(P, a, p):
    n, Q = 1, P
    while Q is not None: Q = ec_add(Q, P, a, p); n += 1
    return n
def curves(p):
    for a in range(p):
        for b in range(p):
            if (4 * a ** 3 + 27 * b * b) % p: yield a, b

def read_param(name, repo="/repo"):
    d = {}
    for ln in open("%s/param/%s.param" % (repo, name)):
        w = ln.split()
        if len(w) == 2: d[w[0]] = int(w[1]) if w[1].lstrip("-").isdigit() else w[1]
    return d

def orbit(x, p):
    """The residues x, x^2+1, ... until they repeat."""
    seen = []
    while x not in seen: seen.append(x); x = (x * x + 1) % p
    return seen

def read_param_file(path):
    d = {}
    for l in open(path):
        w = l.split()
        if len(w) >= 2: d[w[0]] = w[1]
    return d

def g2_cofactor(d):
    """A multiple of the G2 cofactor, coprime to r, for the pairings whose G2 is a quotient group (types d, g, f)."""
    r = int(d["r"]); q = int(d["q"]); from math import isqrt, gcd
    if d["type"] == "f":
        t = q + 1 - r; t2 = t * t - 2 * q; f = isqrt((4 * q * q - t2 * t2) // 3)
        ns = [q * q + 1 - s * (t2 + u * 3 * f) // 2 for s in (1, -1) for u in (1, -1)]
    else:
        k = int(d.get("k", 10)) // 2; t = q + 1 - int(d["n"]); a, b = 2, t
        for _ in range(k - 1): a, b = b, t * b - q * a
        ns = [q ** k + 1 + b]
    for n in ns:
        if n % r == 0 and gcd(n // r, r) == 1: return n // r
    raise ValueError("no twist order divisible by r")

# ---- tiny pairing parameters (found by search; used as instances only)
def solinas(r):
    """exp2, exp1, sign1, sign0 with r = 2^exp2 + sign1 2^exp1 + sign0."""
    for e2 in range(2, r.bit_length() + 1):
        for e1 in range(1, e2):
            for s1 in (1, -1):
                for s0 in (1, -1):
                    if (1 << e2) + s1 * (1 << e1) + s0 == r: return e2, e1, s1, s0
    return None
def ptext(d): return "".join("%s %s\n" % kv for kv in d.items())
def tiny_a(r, nth=0):
    e2, e1, s1, s0 = solinas(r); h = 4
    while True:
        if h % r and is_prime(h * r - 1):
            if nth == 0: return ptext(dict(type="a", q=h * r - 1, h=h, r=r, exp2=e2, exp1=e1, sign1=s1, sign0=s0))
            nth -= 1
        h += 4
def tiny_a1(n, nth=0):
    from math import gcd
    l = 4
    while True:
        if gcd(l, n) == 1 and is_prime(l * n - 1):
            if nth == 0: return ptext(dict(type="a1", p=l * n - 1, n=n, l=l))
            nth -= 1
        l += 4
def ec_count(q, a, b):
    sq = [0] * q
    for y in range(q): sq[y * y % q] += 1
    return 1 + sum(sq[(x * x * x + a * x + b) % q] for x in range(q))
def mult_order(q, r):
    x, k = q % r, 1
    while x != 1:
        x = x * q % r; k += 1
        if k > 60: return 0
    return k
def tiny_mnt(typ, k, r, qmin=5, nth=0):
    """Types d (k = 2, 6, 10) and g (k = 10): a curve over a tiny prime field with embedding degree k."""
    rng = random.Random("%s%d%d" % (typ, k, r)); q = qmin
    while q < 2000:
        q = next_prime(q)
        if q % r == 0 or mult_order(q, r) != k: continue
        for _ in range(400):
            a, b = rng.randrange(1, q), rng.randrange(1, q)
            if (4 * a ** 3 + 27 * b * b) % q == 0: continue
            n = ec_count(q, a, b)
            if n % r or (n // r) % r == 0: continue
            t = q + 1 - n; d = k // 2
            try: g2_cofactor(dict(type=typ, r=r, q=q, n=n, k=k))
            except ValueError: continue
            u, v = 2, t
            for _ in range(k - 1): u, v = v, t * v - q * u
            nk = q ** k + 1 - v
            nqr = next(x for x in range(2, q) if pow(x, (q - 1) // 2, q) == q - 1)
            f = irred_poly(d, q, rng) if d > 1 else [rng.randrange(1, q), 1]
            if nth: nth -= 1; break
            p = dict(type=typ, q=q, n=n, h=n // r, r=r, a=a, b=b)
            p["k"] = k
            p.update(nk=nk, hk=nk // (r * r))
            for i in range(d): p["coeff%d" % i] = f[i]
            p["nqr"] = nqr
            return ptext(p)
    return None
def tiny_f(x):
    q = 36 * x ** 4 + 36 * x ** 3 + 24 * x * x + 6 * x + 1; r = 36 * x ** 4 + 36 * x ** 3 + 18 * x * x + 6 * x + 1
    assert is_prime(q) and is_prime(r)
    b = next(b for b in range(1, q) if ec_count(q, 0, b) == r)
    beta = next(z for z in range(2, q) if pow(z, (q - 1) // 2, q) == q - 1)
    N = q * q - 1
    sq = {}
    els = [(u, v) for u in range(q) for v in range(q)]
    cnt = {}
    for e in els: s = q2mul(e, e, beta, q); cnt[s] = cnt.get(s, 0) + 1
    for c in els[1:]:
        if q2pow(c, N // 2, beta, q) == (1, 0) or q2pow(c, N // 3, beta, q) == (1, 0): continue
        cb = (c[0] * b % q, c[1] * b % q); n = 1
        for e in els:
            z = q2mul(q2mul(e, e, beta, q), e, beta, q); n += cnt.get(((z[0] + cb[0]) % q, (z[1] + cb[1]) % q), 0)
        if n % r == 0 and (n // r) % r: return ptext(dict(type="f", q=q, r=r, b=b, beta=beta, alpha0=-c[0] % q, alpha1=-c[1] % q))
