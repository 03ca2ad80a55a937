"""Canonical forms of real-valued terms: rational functions over inputs and "atoms" (square roots, sines and
cosines of angle units, exponentials, ...) modulo the algebraic relations that define the atoms."""
import math
from fractions import Fraction as Fr
from math import gcd, isqrt

SH = 12                     # bits per exponent in a packed monomial
MASK = (1 << SH) - 1
BIG = 20000                 # give up on polynomials with more monomials than this

class TooBig(Exception):
    pass

class V:
    __slots__ = ("i", "name", "kind", "lo", "hi", "rule", "defn", "one")
    def __init__(s, i, name, kind, lo, hi, defn=None):
        s.i, s.name, s.kind, s.lo, s.hi, s.defn = i, name, kind, lo, hi, defn
        s.rule = None       # polynomial replacing v**2
        s.one = 1 << (SH * i)

def snaps(x):
    """snap for results that are never noise (square roots, exponentials): a small value stays"""
    return snap(x) if abs(x) >= 1e-6 else Fr(x)
def snap(x):
    """The rational a floating-point constant stands for: short decimals and simple fractions as written."""
    if x == 0: return Fr(0)
    if x == int(x) and abs(x) < 1e15: return Fr(int(x))
    if abs(x) < 1e-15: return Fr(0)
    s = repr(x)
    m = s.split("e")[0].replace("-", "").replace(".", "").lstrip("0")
    if len(m) <= 9: return Fr(s)
    f = Fr(x).limit_denominator(4096)
    if f != 0 and abs(float(f) - x) <= 4e-16 * abs(x): return f
    return Fr(x)

# ---------------------------------------------------------------- polynomials: (dict mono->int, positive int denominator)
class Poly:
    __slots__ = ("t", "q", "_k")
    def __init__(s, t, q=1):
        s.t, s.q, s._k = t, q, None
    def __bool__(s): return bool(s.t)
    def __len__(s): return len(s.t)
    def is_const(s): return not s.t or (len(s.t) == 1 and 0 in s.t)
    def const(s): return Fr(s.t.get(0, 0), s.q)

ZERO = Poly({}, 1); ONE = Poly({0: 1}, 1)
def pconst(f):
    f = Fr(f)
    return Poly({0: f.numerator}, f.denominator) if f else ZERO
def shrink(t, q):
    if q != 1:
        g = q
        for c in t.values():
            g = gcd(g, c)
            if g == 1: break
        if g != 1:
            t = {m: c // g for m, c in t.items()}; q //= g
    return Poly(t, q)
def padd(a, b):
    if not a.t: return b
    if not b.t: return a
    if a.q == b.q:
        q = a.q
        if len(a.t) < len(b.t): a, b = b, a
        t = dict(a.t)
        for m, c in b.t.items():
            v = t.get(m, 0) + c
            if v: t[m] = v
            else: del t[m]
    else:
        g = gcd(a.q, b.q); fa = b.q // g; fb = a.q // g; q = a.q * fa
        t = {m: c * fa for m, c in a.t.items()}
        for m, c in b.t.items():
            v = t.get(m, 0) + c * fb
            if v: t[m] = v
            else: del t[m]
    if not t: return ZERO
    return shrink(t, q)
def pneg(a): return Poly({m: -c for m, c in a.t.items()}, a.q)
def psub(a, b): return padd(a, pneg(b))
def pscale(a, f):
    f = Fr(f)
    if not f: return ZERO
    if f == 1: return a
    n = f.numerator
    return shrink({m: c * n for m, c in a.t.items()}, a.q * f.denominator)
def pmul_raw(a, b):
    if not a.t or not b.t: return ZERO
    if len(a.t) > len(b.t): a, b = b, a
    if len(a.t) * len(b.t) > 6000000: raise TooBig("product")
    t = {}
    get = t.get
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = m1 + m2
            t[m] = get(m, 0) + c1 * c2
    t = {m: c for m, c in t.items() if c}
    if len(t) > BIG: raise TooBig("terms")
    if not t: return ZERO
    return shrink(t, a.q * b.q)
def pcontent(a):
    """(positive rational content, primitive integer polynomial with the sign of a)"""
    g = 0
    for c in a.t.values():
        g = gcd(g, c)
        if g == 1: break
    if g == 0: return Fr(0), ZERO
    return Fr(g, a.q), (Poly({m: c // g for m, c in a.t.items()}, 1) if g != 1 else Poly(a.t, 1))
def pkey(a):
    if a._k is None: a._k = (tuple(sorted(a.t.items())), a.q)
    return a._k
def mono_gcd(a):
    """componentwise minimum of the exponents"""
    it = iter(a.t); g = next(it)
    for m in it:
        if g == 0: return 0
        if g == m: continue
        r = 0; x, y, sh = g, m, 0
        while x and y:
            e = min(x & MASK, y & MASK)
            if e: r |= e << sh
            x >>= SH; y >>= SH; sh += SH
        g = r
    return g
def mono_divides(d, m):
    while d:
        if (d & MASK) > (m & MASK): return False
        d >>= SH; m >>= SH
    return True
def mono_items(m):
    i = 0
    while m:
        e = m & MASK
        if e: yield i, e
        m >>= SH; i += 1
def pvars(a):
    o = 0
    for m in a.t: o |= m
    return [i for i, e in mono_items(o)]
def pdiv_exact(a, d, limit=4000):
    """a/d if exact in the polynomial ring, else None"""
    if len(d.t) == 1:
        (md, cd), = d.t.items()
        if not all(mono_divides(md, m) for m in a.t): return None
        f = Fr(d.q, cd)
        return pscale(Poly({m - md: c for m, c in a.t.items()}, a.q), f)
    if len(a.t) < len(d.t) or len(a.t) > limit: 
        return None
    ld = max(d.t); cd = d.t[ld]
    if not mono_divides(ld, max(a.t)): return None
    # quick necessary condition: lowest monomial too
    sd = min(d.t)
    if not mono_divides(sd, min(a.t)): return None
    rem = dict(a.t); quo = {}; scale = 1  # rem*? keep rational through Fractions only if needed
    items = list(d.t.items()); steps = 0
    import heapq
    heap = [-m for m in rem]; heapq.heapify(heap)
    while heap:
        m = -heapq.heappop(heap)
        c = rem.get(m, 0)
        if not c:
            rem.pop(m, None); continue
        if not mono_divides(ld, m): return None
        f = Fr(c) / cd if isinstance(c, Fr) or c % cd else c // cd
        if isinstance(f, Fr) and f.denominator == 1: f = f.numerator
        qm = m - ld; quo[qm] = f; steps += 1
        if steps * len(items) > 2000000: return None
        for mm, cc in items:
            k = qm + mm
            if k in rem: rem[k] -= f * cc
            else:
                rem[k] = -f * cc; heapq.heappush(heap, -k)
        rem.pop(m, None)
    # quo * d.t = a.t  =>  a/d = quo * d.q / a.q
    L = 1
    for f in quo.values():
        if isinstance(f, Fr): L = L * f.denominator // gcd(L, f.denominator)
    t = {m: int(f * L) for m, f in quo.items()}
    return pscale(Poly(t, 1), Fr(d.q, a.q * L))
def psqrt_exact(a):
    """g with g*g == a (integer coefficients, up to sign), else None"""
    if not a.t or a.q != 1: return None
    lm = max(a.t); lc = a.t[lm]
    if lc < 0: return None
    r = isqrt(lc)
    if r * r != lc: return None
    x = lm
    while x:
        if x & 1: return None
        x >>= SH
    lo = min(a.t); y = lo
    while y:
        if y & 1: return None
        y >>= SH
    if len(a.t) > 600: return None
    g = {lm >> 1: r}; hl = lm >> 1
    rem = dict(a.t); del rem[lm]
    n = 0
    while rem:
        m = max(rem); c = rem[m]
        if not mono_divides(hl, m): return None
        if c % (2 * r): return None
        k = m - hl; f = c // (2 * r); n += 1
        if n > 60: return None
        for mm, cc in g.items():
            z = k + mm; v = rem.get(z, 0) - 2 * f * cc
            if v: rem[z] = v
            else: rem.pop(z, None)
        z = 2 * k; v = rem.get(z, 0) - f * f
        if v: rem[z] = v
        else: rem.pop(z, None)
        if k in g: return None
        g[k] = f
    return Poly(g, 1)

# ---------------------------------------------------------------- rational functions
class Rat:
    """num / prod factors[f]**e"""
    __slots__ = ("num", "den", "_k")
    def __init__(s, num, den=()):
        s.num, s.den, s._k = num, den, None   # den: sorted tuple of (factor id, exponent)
    def key(s):
        if s._k is None: s._k = (pkey(s.num), s.den)
        return s._k
    def is_const(s): return not s.den and s.num.is_const()
    def const(s): return s.num.const()

class Ctx:
    def __init__(s):
        s.vars = []; s.byname = {}
        s.factors = []; s.fkey = {}
        s.rules = []            # indices of variables with a rule, ascending
        s.atoms = {}            # key -> var or Rat
        s.units = {}            # angle unit key -> dict
        s.fsign = {}; s.unr = {}            # static sign mask of factors
        s.facts = []            # polynomials known positive by construction (atom axioms)
    # -- variables
    def newvar(s, name, kind, lo, hi, defn=None):
        v = V(len(s.vars), name, kind, lo, hi, defn); s.vars.append(v); s.byname[name] = v; return v
    def set_rule(s, v, poly):
        v.rule = poly; s.rules.append(v.i); s.rules.sort(reverse=True)
    def pv(s, v): return Poly({v.one: 1}, 1)
    # -- reduction modulo v**2 = rule
    def reduce(s, p):
        if not s.rules or not p.t: return p
        allm = 0
        for m in p.t: allm |= m
        for i in s.rules:
            sh = SH * i
            if not (allm >> sh) & (MASK - 1): continue
            v = s.vars[i]
            lowt = {}; parts = {}
            for m, c in p.t.items():
                e = (m >> sh) & MASK
                if e >= 2:
                    k = e >> 1
                    parts.setdefault(k, {})[m - ((k * 2) << sh)] = c
                else: lowt[m] = c
            if not parts: continue
            r = Poly(lowt, p.q) if lowt else ZERO
            pw = ONE; k0 = 0
            for k in sorted(parts):
                while k0 < k: pw = pmul_raw(pw, v.rule); pw = s.reduce(pw); k0 += 1
                r = padd(r, s.reduce(pmul_raw(Poly(parts[k], p.q), pw)))
            p = r
            if not p.t: return p
            allm = 0
            for m in p.t: allm |= m
        if len(p.t) > BIG: raise TooBig("reduce")
        return p
    def mul(s, a, b): return s.reduce(pmul_raw(a, b))
    # -- factors
    def factor_id(s, p):
        """p primitive, leading coefficient positive"""
        k = pkey(p)
        f = s.fkey.get(k)
        if f is None:
            f = len(s.factors); s.factors.append(p); s.fkey[k] = f
        return f
    def split(s, p):
        """p = c * prod factors**e : returns (Fraction c, {fid: e}).  Monomial content, known factors, rest."""
        out = {}
        c, p = pcontent(p)
        if max(p.t) in p.t and p.t[max(p.t)] < 0: p = pneg(p); c = -c
        g = mono_gcd(p)
        if g:
            for i, e in mono_items(g):
                f = s.factor_id(s.pv(s.vars[i])); out[f] = out.get(f, 0) + e
            p = Poly({m - g: cc for m, cc in p.t.items()}, 1)
        if p.is_const():
            return c * p.const(), out
        if pkey(p) in s.fkey:
            f = s.fkey[pkey(p)]; out[f] = out.get(f, 0) + 1; return c, out
        if len(p.t) <= 400:
            done = False
            while not done:
                done = True
                vs = 0
                for m in p.t: vs |= m
                for f, fp in enumerate(s.factors):
                    if len(fp.t) < 2 or len(fp.t) > len(p.t): continue
                    if len(fp.t) > 60: continue
                    fm = max(fp.t)
                    if not mono_divides(fm, max(p.t)): continue
                    q = pdiv_exact(p, fp)
                    if q is not None:
                        out[f] = out.get(f, 0) + 1; p = q; done = False
                        cc, p = pcontent(p); c *= cc
                        if p.t[max(p.t)] < 0: p = pneg(p); c = -c
                        break
                if p.is_const(): return c * p.const(), out
        sq = psqrt_exact(p) if len(p.t) > 1 else None
        if sq is not None:
            cc, sq = pcontent(sq)
            if sq.t[max(sq.t)] < 0: sq = pneg(sq)
            f = s.factor_id(sq); out[f] = out.get(f, 0) + 2; return c * cc * cc, out
        f = s.factor_id(p); out[f] = out.get(f, 0) + 1
        return c, out
    # -- rational function arithmetic
    def rat(s, num, den):
        """build with cancellation; den: dict fid->e"""
        if not num.t: return Rat(ZERO)
        if den:
            nd = {}
            for f, e in sorted(den.items()):
                fp = s.factors[f]
                while e > 0 and len(num.t) <= 3000:
                    q = pdiv_exact(num, fp)
                    if q is None: break
                    num = q; e -= 1
                if e: nd[f] = e
            # sqrt atoms do not stay in denominators: 1/r = r/P
            again = False
            for f in list(nd):
                fp = s.factors[f]
                if len(fp.t) == 1:
                    (m, c), = fp.t.items()
                    items = list(mono_items(m))
                    if len(items) == 1 and items[0][1] == 1 and c == 1 and s.vars[items[0][0]].rule is not None and s.vars[items[0][0]].kind in ("sqrt", "abs"):
                        v = s.vars[items[0][0]]
                        if len(v.rule.t) > 300: continue
                        e = nd.pop(f)
                        # r^-e = r^(e%2) / P^ceil(e/2)
                        if e % 2: num = s.mul(num, s.pv(v))
                        k = (e + 1) // 2
                        c0, fs = s.split(v.rule)
                        num = pscale(num, Fr(1) / (c0 ** k))
                        for ff, ee in fs.items(): nd[ff] = nd.get(ff, 0) + ee * k
                        again = True
            if again: return s.rat(num, nd)
            den = nd
        return Rat(num, tuple(sorted(den.items())) if den else ())
    def radd(s, a, b):
        if not a.num.t: return b
        if not b.num.t: return a
        if a.den == b.den:
            return s.rat(padd(a.num, b.num), dict(a.den))
        da, db = dict(a.den), dict(b.den); L = {}
        for f in set(da) | set(db): L[f] = max(da.get(f, 0), db.get(f, 0))
        na, nb = a.num, b.num
        for f, e in L.items():
            for _ in range(e - da.get(f, 0)): na = s.mul(na, s.factors[f])
            for _ in range(e - db.get(f, 0)): nb = s.mul(nb, s.factors[f])
        return s.rat(padd(na, nb), L)
    def rneg(s, a): return Rat(pneg(a.num), a.den)
    def rsub(s, a, b): return s.radd(a, s.rneg(b))
    def rmul(s, a, b):
        if not a.num.t or not b.num.t: return Rat(ZERO)
        d = dict(a.den)
        for f, e in b.den: d[f] = d.get(f, 0) + e
        # cross-cancel first
        na, nb = a.num, b.num
        if d:
            for f in list(d):
                fp = s.factors[f]
                while d[f] > 0 and len(na.t) <= 3000:
                    q = pdiv_exact(na, fp)
                    if q is None: break
                    na = q; d[f] -= 1
                while d[f] > 0 and len(nb.t) <= 3000:
                    q = pdiv_exact(nb, fp)
                    if q is None: break
                    nb = q; d[f] -= 1
                if d[f] == 0: del d[f]
        return s.rat(s.mul(na, nb), d)
    def rscale(s, a, f): return Rat(pscale(a.num, f), a.den) if f else Rat(ZERO)
    def rinv(s, a):
        c, fs = s.split(a.num)
        num = pconst(1 / c)
        for f, e in a.den:
            for _ in range(e): num = s.mul(num, s.factors[f])
        return s.rat(num, fs)
    def rpow(s, a, n):
        r = None; b = a
        while n:
            if n & 1: r = b if r is None else s.rmul(r, b)
            n >>= 1
            if n: b = s.rmul(b, b)
        return r if r is not None else Rat(ONE)
    # -- intervals
    def vint(s, v): return (v.lo, v.hi)
    def pint(s, p):
        lo = hi = 0.0
        if len(p.t) > 2000: return (-math.inf, math.inf)
        for m, c in p.t.items():
            try: cf = c / p.q
            except OverflowError: return (-math.inf, math.inf)
            a = b = 1.0
            for i, e in mono_items(m):
                v = s.vars[i]; l, h = v.lo, v.hi
                if e % 2 == 0:
                    ml = 0.0 if l <= 0 <= h else min(abs(l), abs(h)); mh = max(abs(l), abs(h))
                    try: l, h = ml ** e, mh ** e
                    except OverflowError: l, h = 0.0, math.inf
                else:
                    try: l, h = (l ** e if not math.isinf(l) else l), (h ** e if not math.isinf(h) else h)
                    except OverflowError: return (-math.inf, math.inf)
                c4 = [x * y if not (x == 0 or y == 0) else 0.0 for x in (a, b) for y in (l, h)]
                a, b = min(c4), max(c4)
            c4 = [cf * x if x else 0.0 for x in (a, b)]
            lo += min(c4); hi += max(c4)
        return (lo, hi)
    def static_sign(s, f):
        """mask of possible signs (1 negative, 2 zero, 4 positive) of factor f from the ranges alone"""
        m = s.fsign.get(f)
        if m is not None: return m
        p = s.factors[f]
        m = s.psign(p)
        s.fsign[f] = m
        return m
    def unroot(s, f):
        """a polynomial without the square root r whose sign is that of factor f = A r + B, A a non-zero number or of known sign, B of the opposite one; or None"""
        if f in s.unr: return s.unr[f]
        p = s.factors[f]; s.unr[f] = None
        if len(p.t) > 30: return None
        vs = [i for i in pvars(p) if s.vars[i].kind == "sqrt" and s.vars[i].rule is not None]
        if len(vs) != 1: return None
        i = vs[0]; one = s.vars[i].one; a = {}; b = {}
        for m, c in p.t.items():
            if any(j == i for j, e in mono_items(m)): a[m - one] = c
            else: b[m] = c
        if not b or len(a) != 1 or any(j == i for m in a for j, e in mono_items(m)): return None
        A = Poly(a, p.q); B = Poly(b, p.q); x = s.psign(A); y = s.psign(B)
        if x == 4 and not y & 4: k = 1
        elif x == 1 and not y & 1: k = -1
        else: return None
        r = s.reduce(psub(s.mul(s.mul(A, A), s.vars[i].rule), s.mul(B, B)))
        s.unr[f] = r if k == 1 else pneg(r)
        return s.unr[f]
    def psign(s, p):
        if not p.t: return 2
        lo, hi = s.pint(p)
        m = 7
        eps = 1e-11 * (abs(lo) + abs(hi)) if math.isfinite(lo) and math.isfinite(hi) else 0.0   # interval ends are computed in double
        if lo > eps: m = 4
        elif hi < -eps: m = 1
        elif lo == 0 and hi == 0: m = 7
        elif lo == 0: m = 6
        elif hi == 0: m = 3
        if m == 7 or m == 6:
            # all even monomials with positive coefficients
            ok = True; pos = False; strict = False
            for mo, c in p.t.items():
                if c < 0: ok = False; break
                st = True
                for i, e in mono_items(mo):
                    v = s.vars[i]
                    if v.lo > 0: continue
                    if e % 2 == 0 or v.lo >= 0:
                        st = False; continue
                    ok = False; break
                if not ok: break
                if st: strict = True
            if ok: m = 4 if strict else (6 & m)
        return m
    def termwise(s, p):
        """if every monomial of p is non-negative by itself: the list (one entry per monomial) of the variables
        one of which must be zero for the monomial to vanish; else None"""
        out = []
        for mo, c in p.t.items():
            if c < 0: return None
            z = []
            for i, e in mono_items(mo):
                v = s.vars[i]
                if v.lo > 0 or v.kind == "exp": continue
                if e % 2 and v.lo < 0: return None
                z.append(i)
            out.append(z)
        return out
    # -- atoms
    def iroot(s, c):
        """square root of a positive rational as (rational factor, leftover rational with no small square factor)"""
        a = c.numerator * c.denominator; out = Fr(1, c.denominator)
        r = isqrt(a)
        if r * r == a: return out * r, 1
        k = 1
        for p in (2, 3, 5, 7, 11, 13):
            while a % (p * p) == 0: a //= p * p; k *= p
        r = isqrt(a)
        if r * r == a: return out * k * r, 1
        return out * k, a
    def rabs(s, p):
        """|p| for a polynomial p (a Rat)"""
        sg = s.psign(p)
        if not (sg & 1): return Rat(p)
        if not (sg & 4): return Rat(pneg(p))
        c, pr = pcontent(p)
        if pr.t[max(pr.t)] < 0: pr = pneg(pr)
        return s.rscale(Rat(s.pv(s.sqrt_atom(s.mul(pr, pr), "abs", pr))), c)
    def sqrt_atom(s, rad, kind="sqrt", of=None):
        k = ("sqrt", pkey(rad))
        v = s.atoms.get(k)
        if v is None:
            lo, hi = s.pint(rad)
            v = s.newvar("r%d" % len(s.vars), kind, math.sqrt(lo) * (1 - 1e-12) if lo > 0 else 0.0, math.sqrt(hi) * (1 + 1e-12) if hi >= 0 else 0.0, (rad, of))
            s.set_rule(v, rad); s.atoms[k] = v
        return v
    def rsqrt(s, a):
        if not a.num.t: return Rat(ZERO)
        if a.is_const():
            c = a.const()
            if c > 0:
                f, left = s.iroot(c)
                if left == 1: return Rat(pconst(f))
                x = math.sqrt(float(c)); sx = snaps(x)
                return Rat(pconst(sx))
        c, fs = s.split(a.num)
        return s._rsqrt2(c, fs, dict(a.den))
    def _rsqrt2(s, c, fs, den):
        exps = dict(fs)
        for f, e in den.items(): exps[f] = exps.get(f, 0) - e
        outn = Rat(ONE); rad = ONE
        sgn = 1 if c > 0 else -1
        nodd = sum(e % 2 for e in exps.values())
        for f, e in sorted(exps.items()):
            if e == 0: continue
            fp = s.factors[f]
            if e % 2 and nodd > 1 and not s.static_sign(f) & 1:   # non-negative for certain: a root of its own
                nodd -= 1; k = (e - 1) // 2
                sq = psqrt_exact(fp)
                outn = s.rmul(outn, s.rabs(sq) if sq is not None else Rat(s.pv(s.sqrt_atom(fp))))
            elif e % 2:
                # sqrt(f^e) : keep f in the radicand, pull out |f|^((e-1)/2)
                k = (e - 1) // 2
                rad = s.mul(rad, fp)
            else: k = e // 2
            if k > 0: outn = s.rmul(outn, s.rpow(s.rabs(fp), k))
            elif k < 0: outn = s.rmul(outn, s.rinv(s.rpow(s.rabs(fp), -k)))
        cc, rad = pcontent(rad)
        cc = cc * abs(c)
        if sgn < 0: rad = pneg(rad)
        f, left = s.iroot(cc)
        if left != 1:
            x = float(cc)
            if abs(x - 1) < 1e-13: f, left = Fr(1), 1
            elif cc.numerator > 10 ** 12 or cc.denominator > 10 ** 12:
                f, left = snaps(math.sqrt(x)), 1
        if left != 1: rad = pscale(rad, left)
        if rad.is_const() and rad.const() > 0:
            cst = rad.const(); ff, l2 = s.iroot(cst)
            if l2 == 1: return s.rscale(outn, f * ff)
        sq = psqrt_exact(rad)
        if sq is not None: return s.rscale(s.rmul(outn, s.rabs(sq)), f)
        return s.rscale(s.rmul(outn, Rat(s.pv(s.sqrt_atom(rad)))), f)
    # angle units
    def unit(s, key, poly_or_rat, kind, info=None):
        u = s.units.get(key)
        if u is None:
            u = {"key": key, "kind": kind, "info": info, "base": None, "rat": poly_or_rat}
            s.units[key] = u
        return u
    def unit_cs(s, u, q):
        """(cos, sin) of U/q as Rats"""
        if u["kind"] == "acos":
            x = u["info"]
            if q == 1: return x, s.rsqrt(s.rsub(Rat(ONE), s.rmul(x, x)))
            if q == 2:
                h = Fr(1, 2)
                return (s.rsqrt(s.rscale(s.radd(Rat(ONE), x), h)), s.rsqrt(s.rscale(s.rsub(Rat(ONE), x), h)))
        if u["kind"] == "atan2":
            cx, sy = u["info"]
            if q == 1: return cx, sy
            if q == 2:
                ch = s.rsqrt(s.rscale(s.radd(Rat(ONE), cx), Fr(1, 2)))
                return ch, s.rmul(sy, s.rinv(s.rscale(ch, 2)))
        if u["kind"] in ("acos", "atan2"): return None
        if u["base"] is None:
            u["base"] = q
            nm = "a%d" % len(s.units)
            c = s.newvar("cos_%s_%d" % (nm, len(s.vars)), "cos", -1.0, 1.0, (u, q)); sn = s.newvar("sin_%s_%d" % (nm, len(s.vars)), "sin", -1.0, 1.0, (u, q))
            s.set_rule(sn, psub(ONE, s.mul(s.pv(c), s.pv(c))))
            u["c"], u["s"] = c, sn
        b = u["base"]
        if b % q: return None
        n = b // q
        return s.mult(Rat(s.pv(u["c"])), Rat(s.pv(u["s"])), n)
    def mult(s, c, sn, n):
        """cos/sin of n times an angle"""
        sg = 1
        if n < 0: n = -n; sg = -1
        rc, rs = Rat(ONE), Rat(ZERO)
        for _ in range(n):
            rc, rs = s.rsub(s.rmul(rc, c), s.rmul(rs, sn)), s.radd(s.rmul(rs, c), s.rmul(rc, sn))
        return rc, (rs if sg > 0 else s.rneg(rs))
    def rcossin(s, a):
        k = ("cs", a.key())
        if k in s.atoms: return s.atoms[k]
        r = s._rcossin(a); s.atoms[k] = r; return r
    def _rcossin(s, a):
        parts = []; c0 = Fr(0)
        if not a.den and len(a.num.t) <= 6:
            for m, c in a.num.t.items():
                co = Fr(c, a.num.q)
                if m == 0: c0 = co; continue
                it = list(mono_items(m))
                if len(it) == 1 and it[0][1] == 1 and s.vars[it[0][0]].kind in ("acos", "atan2"):
                    v = s.vars[it[0][0]]; u = s.unit(("v", v.i), None, v.kind, v.defn)
                elif len(it) == 1 and it[0][1] == 1:
                    v = s.vars[it[0][0]]; u = s.unit(("v", v.i), Rat(s.pv(v)), "gen", v)
                else: u = s.unit(("m", m), Rat(Poly({m: 1}, 1)), "gen", m)
                parts.append((u, co))
        else:
            sg = 1
            num = a.num
            c, pr = pcontent(num)
            if pr.t[max(pr.t)] < 0: sg = -1; num = pneg(num)
            u = s.unit(("r", (pkey(num), a.den)), Rat(num, a.den), "gen", None); parts.append((u, Fr(sg)))
        rc, rs = Rat(ONE), Rat(ZERO)
        if c0:
            x = float(c0); k = round(x / (math.pi / 2))
            if abs(x - k * math.pi / 2) < 1e-12 * max(1, abs(x)) and k != 0 and c0.denominator > 10 ** 6:
                cc, ss = [(1, 0), (0, 1), (-1, 0), (0, -1)][k % 4]
                rc, rs = Rat(pconst(cc)), Rat(pconst(ss))
            else: rc, rs = Rat(pconst(snap(math.cos(x)))), Rat(pconst(snap(math.sin(x))))
        for u, co in parts:
            cs = s.unit_cs(u, co.denominator) if co.denominator <= 4 else None
            if cs is None:
                uu = s.unit(("u", u["key"], co), None, "gen", (u, co))
                c1, s1 = s.unit_cs(uu, 1)
            else: c1, s1 = s.mult(cs[0], cs[1], co.numerator)
            rc, rs = s.rsub(s.rmul(rc, c1), s.rmul(rs, s1)), s.radd(s.rmul(rs, c1), s.rmul(rc, s1))
        return rc, rs
    def racos(s, a):
        if a.is_const():
            c = float(a.const()); c = max(-1.0, min(1.0, c)); return Rat(pconst(snap(math.acos(c)))) if c != 1 else Rat(ZERO)
        # cos of a unit whose range is within [0, pi]
        if not a.den and len(a.num.t) == 1:
            (m, c), = a.num.t.items(); it = list(mono_items(m))
            if c == 1 and a.num.q == 1 and len(it) == 1 and it[0][1] == 1 and s.vars[it[0][0]].kind == "cos":
                v = s.vars[it[0][0]]; u, q = v.defn
                if u["rat"] is not None and not u["rat"].den:
                    lo, hi = s.pint(u["rat"].num)
                    if lo >= 0 and hi / q <= math.pi + 1e-15: return s.rscale(u["rat"], Fr(1, q))
        k = ("acos", a.key()); v = s.atoms.get(k)
        if v is None:
            v = s.newvar("acos%d" % len(s.vars), "acos", 0.0, math.pi, a); s.atoms[k] = v
        return Rat(s.pv(v))
    def ratan2(s, y, x):
        h = s.rsqrt(s.radd(s.rmul(x, x), s.rmul(y, y)))
        ih = s.rinv(h)
        cx, sy = s.rmul(x, ih), s.rmul(y, ih)
        if cx.is_const() and sy.is_const(): return Rat(pconst(snap(math.atan2(float(sy.const()), float(cx.const())))))
        for key, u in s.units.items():
            if u["kind"] == "gen" and u["base"] and u["rat"] is not None and not u["rat"].den:
                c1, s1 = s.unit_cs(u, 1) if u["base"] % 1 == 0 else (None, None)
                if c1 is not None and c1.key() == cx.key() and s1.key() == sy.key():
                    lo, hi = s.pint(u["rat"].num)
                    if lo > -math.pi - 1e-15 and hi <= math.pi + 1e-15: return u["rat"]
        k = ("atan2", cx.key(), sy.key()); v = s.atoms.get(k)
        if v is None:
            v = s.newvar("atan%d" % len(s.vars), "atan2", -math.pi, math.pi, (cx, sy)); s.atoms[k] = v
        return Rat(s.pv(v))
    def rexp(s, a):
        if a.is_const(): return Rat(pconst(snaps(math.exp(float(a.const()))))) if a.num.t else Rat(ONE)
        k = ("exp", a.key()); v = s.atoms.get(k)
        if v is None:
            lo, hi = (s.pint(a.num) if not a.den else (-math.inf, math.inf))
            e = lambda z: math.exp(z) if z < 700 else math.inf
            v = s.newvar("exp%d" % len(s.vars), "exp", e(lo) * (1 - 1e-12) if lo > -700 else 0.0, e(hi) * (1 + 1e-12), a); s.atoms[k] = v
        return Rat(s.pv(v))
    def rpowq(s, a, r):
        """a ** r for a non-negative a and a fraction r: powers of the factors, so that nested powers and common factors combine"""
        if a.is_const(): return Rat(pconst(snaps(float(a.const()) ** float(r)))) if a.num.t else (Rat(ZERO) if r > 0 else None)
        c, fs = s.split(a.num); exps = {}
        for f, e in list(fs.items()) + [(f, -e) for f, e in a.den]:
            p = s.factors[f]; v = None
            if len(p.t) == 1:
                (m, k), = p.t.items(); it = list(mono_items(m))
                if k == p.q and len(it) == 1 and it[0][1] == 1 and s.vars[it[0][0]].kind == "powq": v = s.vars[it[0][0]]
            b, x = (v.defn[0], v.defn[1]) if v is not None else (f, Fr(1))
            exps[b] = exps.get(b, 0) + x * e * r
        if c < 0 or any(s.static_sign(f) & 1 for f in exps): return None
        out = Rat(pconst(snaps(float(c) ** float(r))))
        for f, e in sorted(exps.items()):
            k = math.floor(e); x = e - k
            if k > 0: out = s.rmul(out, s.rpow(Rat(s.factors[f]), k))
            elif k < 0: out = s.rmul(out, s.rinv(s.rpow(Rat(s.factors[f]), -k)))
            if x:
                key = ("powq", f, x); v = s.atoms.get(key)
                if v is None:
                    lo, hi = s.pint(s.factors[f]); lo = max(lo, 0.0)
                    v = s.newvar("pow%d" % len(s.vars), "powq", lo ** float(x) * (1 - 1e-12), hi ** float(x) * (1 + 1e-12), (f, x)); s.atoms[key] = v
                out = s.rmul(out, Rat(s.pv(v)))
        return out
    def ropaque(s, kind, args, lo=-math.inf, hi=math.inf):
        k = (kind,) + tuple(a.key() for a in args); v = s.atoms.get(k)
        if v is None:
            v = s.newvar("%s%d" % (kind, len(s.vars)), kind, lo, hi, args); s.atoms[k] = v
        return Rat(s.pv(v))
