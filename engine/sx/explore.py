"""Explorer: drives a symbolic executable, decides its branches, discharges its checks."""
import math, os, random, subprocess, sys, time, zlib, tempfile, shutil, signal
from fractions import Fraction as Fr
import numpy as np
from . import poly as P
from .poly import Rat, Poly, ONE, ZERO, snap
from . import solver

NEG, ZER, POS = 1, 2, 4
SMUL = {}
for a in range(8):
    for b in range(8):
        m = 0
        for x in (1, 2, 4):
            if a & x:
                for y in (1, 2, 4):
                    if b & y: m |= 2 if (x == 2 or y == 2) else (4 if x == y else 1)
        SMUL[a, b] = m
FLIP = [0, 4, 2, 6, 1, 5, 3, 7]

class Undecided(Exception): pass

class State:
    """what is known on the current path"""
    __slots__ = ("pc", "pct", "fm", "bv", "mask", "ints", "unsure", "sub", "dl")
    def __init__(s): s.pc = []; s.pct = []; s.fm = {}; s.bv = {}; s.mask = None; s.ints = {}; s.unsure = False; s.sub = {}; s.dl = math.inf
    def copy(s):
        r = State(); r.pc = list(s.pc); r.pct = list(s.pct); r.fm = dict(s.fm); r.bv = dict(s.bv); r.mask = None if s.mask is None else s.mask.copy(); r.ints = dict(s.ints); r.unsure = s.unsure; r.sub = dict(s.sub); r.dl = s.dl
        return r

class Explorer:
    def __init__(s, symexe, natexe, entry, seed=1, budget=300, check_s=20, branch_ms=700, maxpaths=100000, verbose=False, workdir=None, known=()):
        s.symexe, s.natexe, s.entry, s.seed, s.verbose = symexe, natexe, entry, seed, verbose
        s.check_s, s.branch_ms, s.maxpaths = check_s, branch_ms, maxpaths
        s.deadline = time.time() + budget
        s.ctx = P.Ctx(); s.z3 = solver.Persistent(); s.stats = solver.Stats()
        s.terms = []; s.tkey = {}; s.nrm = {}; s.lits = {}
        s.varinfo = {}      # term id -> (name, lo, hi)
        s.pvar = {}         # term id -> poly var
        s.N = 64; s.vals = {}; s.memo = {}; s.bvals = {}
        s.zforms = {}; s.simpmemo = {}; s.rawv = {}; s.units_ = {}       # derived var tid -> list of others
        s.rng = random.Random(zlib.crc32(("%s/%d" % (entry, seed)).encode()))
        s.paths = s.pruned = s.branches = s.forks = s.nchecks = s.discharged = s.simplified = 0
        s.unsure_paths = 0; s.witness_s = 0.0     # time spent looking for inputs that follow a path
        s.labels = {}       # label -> dict(reached, confirmed)
        s.viol = []; s.undecided = []; s.notes = {}; s.functions = set(); s.crashes = []
        s.validated = 0; s.replays = 0; s.samples_out = []; s.qsample = []
        s.work = workdir or tempfile.mkdtemp(prefix="sx")
        s.havoc = False
        s.known = set(known); s.stopfile = os.path.join(s.work, "stop"); s.early = False; s.lastlook = 0; s.cuts = set()
    # ------------------------------------------------------------ terms
    def term(s, key):
        t = s.tkey.get(key)
        if t is None: t = len(s.terms); s.terms.append(key); s.tkey[key] = t
        return t
    def define(s, parts, idmap):
        i = int(parts[1]); op = parts[2]
        if op == "c": key = ("c", float.fromhex(parts[3]))
        elif op == "v":
            key = ("v", parts[3]); t = s.term(key); idmap[i] = t
            if t not in s.varinfo: s.newvar(t, parts[3], float.fromhex(parts[4]), float.fromhex(parts[5]))
            return
        elif op == "bv":
            key = ("bv", parts[3])
            if s.tkey.get(key) is None:
                r = random.Random(zlib.crc32(("%d/%s/b" % (s.seed, parts[3])).encode()))
                s.bvals[parts[3]] = np.array([r.random() < 0.5 for _ in range(s.N)])
        elif op == "powi": key = ("powi", idmap[int(parts[3])], int(parts[4]))
        else: key = (op,) + tuple(idmap[int(x)] for x in parts[3:])
        idmap[i] = s.term(key)
    def newvar(s, t, name, lo, hi):
        s.varinfo[t] = (name, lo, hi)
        s.pvar[t] = s.ctx.newvar("v_" + name, "var", lo, hi)
        r = random.Random(zlib.crc32(("%d/%s" % (s.seed, name)).encode()))
        a = []
        l, h = max(lo, -1e6), min(hi, 1e6)
        sl, sh = max(l, -5.0), min(h, 5.0)
        if sl > sh: sl, sh = l, h
        for k in range(s.N):
            m = k % 8
            if m in (0, 1, 2): x = r.uniform(sl, sh)
            elif m == 3: x = r.uniform(l, h)
            elif m == 4: x = float(r.randint(math.ceil(sl), math.floor(sh))) if math.ceil(sl) <= math.floor(sh) else r.uniform(sl, sh)
            elif m == 5: x = r.choice([sl, sh, 0.5 * (sl + sh), r.uniform(sl, sh), 0.0, 1.0, -1.0, 0.5])
            elif m == 6: x = max(0.0, sl) + (sh - max(0.0, sl)) * r.random() ** 3 if sh > 0 else r.uniform(sl, sh)
            else: x = r.gauss(0, 0.3)
            a.append(min(max(x, l), h))
        s.vals[t] = np.array(a)
    def unit_group(s, ids):
        d = ids[0]
        if d in s.units_: return
        s.units_[d] = ids[1:]
        v = s.pvar[d]; rule = ONE
        for t in ids[1:]:
            p = s.ctx.pv(s.pvar[t]); rule = P.psub(rule, P.pmul_raw(p, p))
        s.ctx.set_rule(v, rule)
        r = random.Random(zlib.crc32(("%d/u/%s" % (s.seed, s.varinfo[d][0])).encode()))
        for k in range(s.N):
            if k % 8 == 5:
                vec = [0.0] * len(ids); vec[r.randrange(len(ids))] = r.choice([1.0, -1.0])
            elif k % 8 == 4:
                vec = [r.choice([0.0, 1.0, -1.0, 0.5]) for _ in ids]
                if not any(vec): vec[0] = 1.0
            else: vec = [r.gauss(0, 1) for _ in ids]
            n = math.sqrt(sum(x * x for x in vec)); vec = [x / n for x in vec]
            if s.varinfo[d][1] >= 0 and vec[0] < 0: vec = [-x for x in vec]
            for t, x in zip(ids, vec): s.vals[t][k] = x
        s.memo.clear()
    def fix_units(s, cols):
        for d, others in s.units_.items():
            for k in cols:
                n = sum(s.vals[t][k] ** 2 for t in others)
                if n > 1:
                    for t in others: s.vals[t][k] /= math.sqrt(n)
                    n = 1.0
                w = math.sqrt(max(0.0, 1 - n))
                if s.varinfo[d][1] < 0 and s.vals[d][k] < 0: w = -w
                s.vals[d][k] = w
    # ------------------------------------------------------------ numeric evaluation
    def ev(s, t):
        memo = s.memo
        if t in memo: return memo[t]
        st = [t]
        with np.errstate(all="ignore"):
            while st:
                x = st[-1]
                if x in memo: st.pop(); continue
                k = s.terms[x]; op = k[0]
                if op == "c": memo[x] = np.full(s.N, k[1]); st.pop(); continue
                if op == "v": memo[x] = s.vals[x]; st.pop(); continue
                kids = k[1:2] if op == "powi" else k[1:]
                miss = [y for y in kids if y not in memo]
                if miss: st.extend(miss); continue
                a = memo[kids[0]]; b = memo[kids[1]] if len(kids) > 1 else None
                if op == "+": r = a + b
                elif op == "-": r = a - b
                elif op == "*": r = a * b
                elif op == "/": r = a / b
                elif op == "neg": r = -a
                elif op == "sqrt": r = np.sqrt(np.where((a < 0) & (a > -1e-12), 0, a))
                elif op == "sin": r = np.sin(a)
                elif op == "cos": r = np.cos(a)
                elif op == "acos": r = np.arccos(np.clip(a, -1, 1))
                elif op == "atan2": r = np.arctan2(a, b)
                elif op == "exp": r = np.exp(a)
                elif op == "log": r = np.log(a)
                elif op == "pow": r = np.power(a, b)
                elif op == "powi": r = np.power(a, float(k[2]))
                else: raise Undecided("eval " + op)
                memo[x] = r; st.pop()
        return memo[t]
    def evb(s, t, margin=0.0):
        """numeric truth of a formula per column: +1 true, 0 false, with margin: only if clear (else nan -> treated as unknown).
        returns (definitely_true, definitely_false) boolean arrays"""
        k = s.terms[t]; op = k[0]
        if op == "true": return np.ones(s.N, bool), np.zeros(s.N, bool)
        if op == "false": return np.zeros(s.N, bool), np.ones(s.N, bool)
        if op == "bv": v = s.bvals[k[1]]; return v, ~v
        if op == "not": a, b = s.evb(k[1], margin); return b, a
        if op == "and":
            a, b = s.evb(k[1], margin), s.evb(k[2], margin); return a[0] & b[0], a[1] | b[1]
        if op == "or":
            a, b = s.evb(k[1], margin), s.evb(k[2], margin); return a[0] | b[0], a[1] & b[1]
        a, b = s.ev(k[1]), s.ev(k[2])
        with np.errstate(all="ignore"):
            ok = np.isfinite(a) & np.isfinite(b)
            sc = margin * (1 + np.abs(a) + np.abs(b))
            d = b - a
            if op == "<":
                if margin: return ok & (d > sc), ok & (d < -sc)
                return ok & (d > 0), ok & ~(d > 0)
            if op == "=":
                e = 1e-9 * (1 + np.abs(a) + np.abs(b))
                if margin: return ok & (np.abs(d) == 0), ok & (np.abs(d) > np.maximum(sc, e))
                return ok & (np.abs(d) <= e * 1e-3), ok & ~(np.abs(d) <= e * 1e-3)
            if op == "near":
                tol = s.ev(k[3])
                return ok & (np.abs(d) <= tol), ok & (np.abs(d) > 4 * tol + 1e-6 * margin * 1e6 * 0 + sc)
        raise Undecided("evb " + op)
    # ------------------------------------------------------------ canonical forms
    def norm(s, t):
        nrm = s.nrm
        if t in nrm: return nrm[t]
        c = s.ctx; st = [t]
        while st:
            x = st[-1]
            if x in nrm: st.pop(); continue
            k = s.terms[x]; op = k[0]
            if op == "c": nrm[x] = Rat(P.pconst(snap(k[1]))); st.pop(); continue
            if op == "v": nrm[x] = Rat(c.pv(s.pvar[x])); st.pop(); continue
            kids = k[1:2] if op == "powi" else k[1:]
            miss = [y for y in kids if y not in nrm]
            if miss: st.extend(miss); continue
            a = nrm[kids[0]]; b = nrm[kids[1]] if len(kids) > 1 else None
            if op == "+": r = c.radd(a, b)
            elif op == "-": r = c.rsub(a, b)
            elif op == "*": r = c.rmul(a, b)
            elif op == "/":
                if not b.num.t: raise Undecided("division by an expression that is identically zero")
                r = c.rmul(a, c.rinv(b))
            elif op == "neg": r = c.rneg(a)
            elif op == "sqrt": r = c.rsqrt(a)
            elif op == "sin": r = c.rcossin(a)[1]
            elif op == "cos": r = c.rcossin(a)[0]
            elif op == "acos": r = c.racos(a)
            elif op == "atan2": r = c.ratan2(a, b)
            elif op == "exp": r = c.rexp(a)
            elif op == "powi": r = c.rpow(a, k[2])
            elif op == "pow":
                if b.is_const() and b.const().denominator == 2:
                    r = c.rpow(c.rsqrt(a), abs(b.const().numerator)); nrm[x] = c.rinv(r) if b.const() < 0 else r; st.pop(); continue
                r = c.rpowq(a, b.const()) if b.is_const() and b.const().denominator <= 64 else None
                if r is None:   # one form for x^-y and 1/x^y
                    m = c.rneg(b); flip = b.num.t and max(b.num.t.items())[1] < 0
                    r = c.ropaque("pow", (a, m if flip else b), 0.0, math.inf)
                    if flip: r = c.rinv(r)
            elif op == "log": r = c.ropaque("log", (a,))
            else: raise Undecided("norm " + op)
            nrm[x] = r; st.pop()
        return nrm[t]
    # formula: ("T",) ("F",) ("s", mask, odd, even, den) ("bv", name) ("not", f) ("and", f, g) ("or", f, g) ("near", Rat, tol)
    def lit(s, t):
        r = s.lits.get(t)
        if r is None:
            try: r = s._lit(t)
            except (P.TooBig, Undecided, RecursionError) as e:
                s.notes["not normalised: %s" % e] = s.notes.get("not normalised: %s" % e, 0) + 1
                r = ("raw", t)
            s.lits[t] = r
        return r
    def rawvars(s, t):
        """poly variables of the inputs below term t"""
        if t in s.rawv: return s.rawv[t]
        seen = set(); st = [t]; out = set()
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); k = s.terms[x]
            if k[0] == "v": out.add(s.pvar[x].i)
            elif k[0] == "bv": out.add("b" + k[1])
            elif k[0] != "c": st.extend(k[1:2] if k[0] == "powi" else k[1:])
        s.rawv[t] = out; return out
    def rawsmt(s, t, done, use):
        """definitions (text) of the real-valued terms below the formula t, and the formula: no normalisation"""
        txt = []; st = [t]
        def nm(x):
            k = s.terms[x]
            if k[0] == "c": return num(snap(k[1]))
            if k[0] == "v": use.add(s.pvar[x].i); return "x%d" % s.pvar[x].i
            return "t%d" % x
        def form(x):
            k = s.terms[x]; o = k[0]
            if o in ("true", "false"): return o
            if o == "bv": use.add("b" + k[1]); return "|b_%s|" % k[1]
            if o == "not": return "(not %s)" % form(k[1])
            if o in ("and", "or"): return "(%s %s %s)" % (o, form(k[1]), form(k[2]))
            for y in k[1:3]: real(y)
            a, b = nm(k[1]), nm(k[2])
            if o == "near": tol = num(Fr(s.terms[k[3]][1])); return "(and (<= (- %s %s) %s) (<= (- %s %s) %s))" % (a, b, tol, b, a, tol)
            return "(%s %s %s)" % (o, a, b)
        def real(x):
            st = [x]
            while st:
                y = st[-1]
                if y in done or s.terms[y][0] in ("c", "v"): st.pop(); continue
                k = s.terms[y]; kids = k[1:2] if k[0] == "powi" else k[1:]
                miss = [z for z in kids if z not in done and s.terms[z][0] not in ("c", "v")]
                if miss: st.extend(miss); continue
                st.pop(); done.add(y); n = "t%d" % y; txt.append("(declare-const %s Real)" % n); o = k[0]; a = nm(k[1]); b = nm(kids[1]) if len(kids) > 1 else None
                if o in "+-*": txt.append("(assert (= %s (%s %s %s)))" % (n, o, a, b))
                elif o == "/": txt.append("(assert (= (* %s %s) %s))" % (n, b, a)); txt.append("(assert (distinct %s 0.0))" % b)
                elif o == "neg": txt.append("(assert (= %s (- %s)))" % (n, a))
                elif o == "sqrt": txt.append("(assert (and (>= %s 0.0) (= (* %s %s) %s)))" % (n, n, n, a))
                elif o == "powi": txt.append("(assert (= %s (* %s)))" % (n, " ".join([a] * k[2])) if k[2] > 1 else "(assert (= %s %s))" % (n, a))
                elif o in ("sin", "cos"):
                    txt.append("(assert (and (<= (- 1.0) %s) (<= %s 1.0)))" % (n, n))
                    ot = s.tkey.get(("cos" if o == "sin" else "sin", k[1]))
                    if ot in done: txt.append("(assert (= (+ (* %s %s) (* t%d t%d)) 1.0))" % (n, n, ot, ot))
                elif o == "exp": txt.append("(assert (> %s 0.0))" % n)
                elif o == "acos": txt.append("(assert (and (<= 0.0 %s) (<= %s 3.1416)))" % (n, n))
                elif o == "atan2": txt.append("(assert (and (<= (- 3.1416) %s) (<= %s 3.1416)))" % (n, n))
        f = form(t); return "\n".join(txt), f
    def signlit(s, d, mask):
        """sign of the Rat d in mask"""
        if not d.num.t: return ("T",) if mask & ZER else ("F",)
        c, fs = s.ctx.split(d.num)
        for f in [f for f, e in fs.items() if e % 2]:
            r = s.ctx.unroot(f)
            if r is None: continue
            del fs[f]
            if not r.t: return ("T",) if mask & ZER else ("F",)
            k, gs = s.ctx.split(r); c *= k
            for g, e in gs.items(): fs[g] = fs.get(g, 0) + e
        if c < 0: mask = FLIP[mask]
        odd = {}; even = set(); den = set()
        for f, e in fs.items():
            if e % 2: odd[f] = 1
            else: even.add(f)
        for f, e in d.den:
            den.add(f)
            if e % 2: odd[f] = odd.get(f, 0) ^ 1
        odd = tuple(sorted(f for f, v in odd.items() if v))
        if not odd and not even:
            return ("T",) if mask & POS else ("F",)
        return ("s", mask, odd, tuple(sorted(even)), tuple(sorted(den)))
    def _lit(s, t):
        k = s.terms[t]; op = k[0]
        if op == "true": return ("T",)
        if op == "false": return ("F",)
        if op == "bv": return ("bv", k[1])
        if op == "not": return s.neg(s.lit(k[1]))
        if op in ("and", "or"): return (op, s.lit(k[1]), s.lit(k[2]))
        if op == "<" or op == "=":
            d = s.ctx.rsub(s.norm(k[2]), s.norm(k[1]))
            return s.signlit(d, POS if op == "<" else ZER)
        if op == "near":
            d = s.ctx.rsub(s.norm(k[1]), s.norm(k[2]))
            if not d.num.t: return ("T",)
            if d.is_const(): return ("T",) if abs(d.const()) <= Fr(s.terms[k[3]][1]) else ("F",)
            return ("near", d, s.terms[k[3]][1])
        raise Undecided("lit " + op)
    def neg(s, f):
        if f[0] == "T": return ("F",)
        if f[0] == "F": return ("T",)
        if f[0] == "s": return ("s", 7 & ~f[1]) + f[2:]
        if f[0] == "not": return f[1]
        if f[0] == "and": return ("or", s.neg(f[1]), s.neg(f[2]))
        if f[0] == "or": return ("and", s.neg(f[1]), s.neg(f[2]))
        return ("not", f)
    def fmask(s, st, f):
        m = st.fm.get(f)
        return s.ctx.static_sign(f) if m is None else m
    def quick(s, st, f):
        """True/False/None"""
        o = f[0]
        if o == "T": return True
        if o == "F": return False
        if o == "bv": return st.bv.get(f[1])
        if o == "not":
            r = s.quick(st, f[1]); return None if r is None else not r
        if o == "and":
            a = s.quick(st, f[1])
            if a is False: return False
            b = s.quick(st, f[2])
            if b is False: return False
            return True if a and b else None
        if o == "or":
            a = s.quick(st, f[1])
            if a: return True
            b = s.quick(st, f[2])
            if b: return True
            return False if a is False and b is False else None
        if o == "s":
            m = POS
            den = f[4]
            for x in f[2]:
                k = s.fmask(st, x)
                if x in den: k &= 5
                m = SMUL[m, k]
            for x in f[3]:
                k = s.fmask(st, x)
                m = SMUL[m, SMUL[k, k] & 6 if k in (1, 2, 4, 5) else 6]
            if m & ~f[1] == 0: return True
            if m & f[1] == 0: return False
            return None
        if o == "near":
            if not f[1].den:
                lo, hi = s.ctx.pint(f[1].num)
                if -f[2] <= lo and hi <= f[2]: return True
            return None
        return None
    def subst(s, p, sub):
        """polynomial with the variables of sub replaced by constants"""
        t = {}
        for m, c in p.t.items():
            k = Fr(c); mm = m
            for i, e in P.mono_items(m):
                if i in sub:
                    k *= sub[i] ** e; mm -= e << (P.SH * i)
                    if not k: break
            if k: t[mm] = t.get(mm, 0) + k
        t = {m: c for m, c in t.items() if c}
        if not t: return ZERO
        L = 1
        for c in t.values(): L = L * c.denominator // math.gcd(L, c.denominator)
        return s.ctx.reduce(P.shrink({m: int(c * L) for m, c in t.items()}, L * p.q))
    def zerofact(s, st, x):
        """factor x is zero on this path: constants for variables, if they follow at once"""
        p = s.ctx.factors[x]
        if len(p.t) > 8: return
        p = s.subst(p, st.sub) if st.sub else p
        vs = P.pvars(p); new = {}
        if not vs: return
        if len(vs) == 1 and max(p.t) == 1 << (P.SH * vs[0]):
            new[vs[0]] = -Fr(p.t.get(0, 0), p.t[max(p.t)])
        else:
            tw = s.ctx.termwise(p) or s.ctx.termwise(P.pneg(p))
            for z in tw or ():
                if len(z) == 1: new[z[0]] = Fr(0)
        for i in list(new):
            v = s.ctx.vars[i]
            if v.kind == "abs" and not new[i]:
                q = v.defn[1]
                if len(P.pvars(q)) == 1 and len(q.t) == 1: new[P.pvars(q)[0]] = Fr(0)
        if any(i not in st.sub for i in new):
            st.sub.update(new)
            for t in s.units_:
                v = s.pvar[t]
                if v.i in st.sub or v.lo < 0: continue
                r = s.subst(v.rule, st.sub)
                if r.is_const():
                    c = r.const()
                    if c >= 0:
                        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                        if a * a == c.numerator and b * b == c.denominator: st.sub[v.i] = Fr(a, b)
    def simp(s, st, f):
        """f with the variables that are constant on this path replaced"""
        if not st.sub: return f
        o = f[0]
        if o == "not": g = s.simp(st, f[1]); return f if g is f[1] else s.neg(g)
        if o in ("and", "or"):
            a, b = s.simp(st, f[1]), s.simp(st, f[2]); return f if a is f[1] and b is f[2] else (o, a, b)
        if o not in ("s", "near"): return f
        acc = set(); s.fvars(f, acc)
        if not any(i in st.sub for i in acc): return f
        key = (f, tuple(sorted(st.sub.items())))
        r = s.simpmemo.get(key)
        if r is None:
            try: r = s._simp(st, f)
            except P.TooBig: r = f
            s.simpmemo[key] = r
        return r
    def _simp(s, st, f):
        c = s.ctx; o = f[0]
        if o == "near":
            num = s.subst(f[1].num, st.sub); d = Rat(num); den = {}
            k = Fr(1)
            for x, e in f[1].den:
                p = s.subst(c.factors[x], st.sub)
                if not p.t: return f
                c0, fs = c.split(p); k *= c0 ** e
                for y, ee in fs.items(): den[y] = den.get(y, 0) + ee * e
            d = c.rat(P.pscale(num, 1 / k), den)
            if not d.num.t: return ("T",)
            if d.is_const(): return ("T",) if abs(d.const()) <= Fr(f[2]) else ("F",)
            return ("near", d, f[2])
        mask = f[1]; odd = {}; even = set(); den = set()
        for x in f[4]:
            p = s.subst(c.factors[x], st.sub)
            if not p.t: return f
            den.update(c.split(p)[1])
        for xs, par in ((f[2], 1), (f[3], 2)):
            for x in xs:
                p = s.subst(c.factors[x], st.sub)
                if not p.t: return ("T",) if mask & ZER else ("F",)
                c0, fs = c.split(p)
                if par == 1 and c0 < 0: mask = FLIP[mask]
                for y, e in fs.items():
                    if (e * par) % 2: odd[y] = odd.get(y, 0) ^ 1; even.discard(y) if False else None
                    even.add(y)
        o_ = tuple(sorted(y for y, v in odd.items() if v)); e_ = tuple(sorted(y for y in even if y not in o_ and y not in den))
        if not o_ and not e_: return ("T",) if mask & POS else ("F",)
        return ("s", mask, o_, e_, tuple(sorted(den)))
    def learn(s, st, f):
        s.learn0(st, f)
        if f[0] == "s":
            for x in f[2] + f[3]:
                if st.fm.get(x) == 2: s.zerofact(st, x)
    def learn0(s, st, f):
        o = f[0]
        if o == "bv": st.bv[f[1]] = True
        elif o == "not" and f[1][0] == "bv": st.bv[f[1][1]] = False
        elif o == "and": s.learn(st, f[1]); s.learn(st, f[2])
        elif o == "or":
            a, b = s.quick(st, f[1]), s.quick(st, f[2])
            if a is False: s.learn(st, f[2])
            elif b is False: s.learn(st, f[1])
        elif o == "s":
            for x in f[4]:
                k = s.fmask(st, x)
                if k & 2: st.fm[x] = k & 5
            if not f[1] & ZER:
                for x in f[2] + f[3]:
                    k = s.fmask(st, x)
                    if k & 2: st.fm[x] = k & 5
            # a single factor of unknown sign?
            unk = [x for x in f[2] if s.fmask(st, x) not in (1, 4)]
            evz = [x for x in f[3] if s.fmask(st, x) & 2]
            if len(unk) == 1 and not evz:
                m = f[1]
                for x in f[2]:
                    if x != unk[0] and s.fmask(st, x) == 1: m = FLIP[m]
                st.fm[unk[0]] = s.fmask(st, unk[0]) & m
            elif not unk and len(evz) == 1 and f[1] in (1, 2, 3):
                m = POS
                for x in f[2]: m = SMUL[m, s.fmask(st, x)]
                # sign is m or zero; mask says not m => zero
                if not (m & f[1]): st.fm[evz[0]] = s.fmask(st, evz[0]) & 2
    # ------------------------------------------------------------ SMT encoding
    def pstr(s, p):
        c = s.ctx; out = []
        for m, k in p.t.items():
            fs = []
            for i, e in P.mono_items(m): fs += ["x%d" % i] * e
            co = Fr(k, p.q)
            n = "(/ %d.0 %d.0)" % (abs(co.numerator), co.denominator) if co.denominator != 1 else "%d.0" % abs(co.numerator)
            if co < 0: n = "(- %s)" % n
            if not fs: out.append(n)
            elif co == 1: out.append(fs[0] if len(fs) == 1 else "(* %s)" % " ".join(fs))
            else: out.append("(* %s %s)" % (n, " ".join(fs)))
        if not out: return "0.0"
        return out[0] if len(out) == 1 else "(+ %s)" % " ".join(out)
    def zero_form(s, f):
        r = s.zforms.get(f, 0)
        if r == 0:
            p = s.ctx.factors[f]
            r = None if len(p.t) > 60 or (len(p.t) == 1 and sum(1 for _ in P.mono_items(max(p.t))) == 1) else s.ctx.termwise(p)
            s.zforms[f] = r
        return r
    def encode(s, forms, st=None):
        """SMT text for the conjunction of formulas; returns (text, value variables)"""
        used = set(); defs = {}; bvs = set(); rawtxt = []; rawdone = set()
        def use(p):
            for i in P.pvars(p): used.add(i)
        def fac(f):
            if f not in defs:
                p = s.ctx.factors[f]; use(p); defs[f] = p
            return "f%d" % f
        def sgn(op, e): return "(%s %s 0.0)" % (op, e)
        OPS = {1: "<", 2: "=", 4: ">", 3: "<=", 6: ">="}
        def enc(f):
            o = f[0]
            if o == "T": return "true"
            if o == "F": return "false"
            if o == "bv": bvs.add(f[1]); return "|b_%s|" % f[1]
            if o == "raw":
                us = set(); d, r = s.rawsmt(f[1], rawdone, us); rawtxt.append(d)
                for i in us: (bvs.add(i[1:]) if isinstance(i, str) else used.add(i))
                return r
            if o == "not": return "(not %s)" % enc(f[1])
            if o in ("and", "or"): return "(%s %s %s)" % (o, enc(f[1]), enc(f[2]))
            if o == "near":
                d = f[1]; use(d.num); n = s.pstr(d.num); tol = Fr(f[2]); ts = "(/ %d.0 %d.0)" % (tol.numerator, tol.denominator)
                if not d.den: return "(and (<= %s %s) (>= %s (- %s)))" % (n, ts, n, ts)
                dn = []
                for x, e in d.den: dn += [fac(x)] * e
                D = dn[0] if len(dn) == 1 else "(* %s)" % " ".join(dn)
                sg = POS
                for x, e in d.den:
                    if e % 2: sg = SMUL[sg, (s.fmask(st, x) if st else s.ctx.static_sign(x)) & 5]
                if sg == 4: return "(let ((d_ (* %s %s)) (n_ %s)) (and (<= n_ d_) (>= n_ (- d_))))" % (ts, D, n)
                if sg == 1: return "(let ((d_ (* %s %s)) (n_ %s)) (and (<= n_ (- d_)) (>= n_ d_)))" % (ts, D, n)
                return "(let ((d_ (* %s %s)) (n_ %s)) (or (and (<= n_ d_) (>= n_ (- d_))) (and (<= n_ (- d_)) (>= n_ d_))))" % (ts, D, n)
            m = f[1]
            if len(f[2]) + len(f[3]) == 1:
                tw = s.zero_form(f[2][0] if f[2] else f[3][0])
                if tw is not None:   # sum of non-negative terms: zero iff every term is
                    for x in f[4]: fac(x)
                    z = m & ZER; pz = m & POS
                    if z and pz: return "true"
                    if not z and not pz: return "false"
                    a = "(and true %s)" % " ".join("(or false %s)" % " ".join("(= x%d 0.0)" % i for i in mo) for mo in tw)
                    for mo in tw: used.update(mo)
                    return a if z else "(not %s)" % a
            odd = [fac(x) for x in f[2]]; ev = [fac(x) for x in f[3]]
            for x in f[4]: fac(x)
            parts = []
            if m == 7: return "true"
            if m == 0: return "false"
            if odd:
                E = odd[0] if len(odd) == 1 else "(* %s)" % " ".join(odd)
                a = "(distinct %s 0.0)" % E if m == 5 else sgn(OPS[m], E)
            else: a = "true" if m & POS else "false"
            if ev:
                nz = "(and %s)" % " ".join("(distinct %s 0.0)" % e for e in ev)
                a = "(or %s (not %s))" % (a, nz) if m & ZER else "(and %s %s)" % (a, nz)
                if not odd and m == 2: a = "(not %s)" % nz
            dz = [x for x in f[4]]
            return a
        body = [enc(f) for f in forms]
        # denominators on this path are nonzero
        dens = set()
        def colden(f):
            if f[0] == "s": dens.update(f[4])
            elif f[0] == "near": dens.update(x for x, e in f[1].den)
            elif f[0] in ("not",): colden(f[1])
            elif f[0] in ("and", "or"): colden(f[1]); colden(f[2])
        for f in forms: colden(f)
        for x in dens: body.append("(distinct %s 0.0)" % fac(x))
        for x, m in (st.fm if st else {}).items():
            if x in defs and m in OPS: body.append(sgn(OPS[m], "f%d" % x))
            elif x in defs and m == 5: body.append("(distinct f%d 0.0)" % x)
        ax = []; seen = set()
        def close(i0):
            todo = [i0]
            while todo:
                i = todo.pop()
                if i in seen: continue
                seen.add(i); v = s.ctx.vars[i]
                if v.lo > -math.inf: ax.append("(>= x%d %s)" % (i, num(v.lo)))
                if v.hi < math.inf: ax.append("(<= x%d %s)" % (i, num(v.hi)))
                if v.rule is not None:
                    ax.append("(= (* x%d x%d) %s)" % (i, i, s.pstr(v.rule)))
                    todo += P.pvars(v.rule)
                if v.kind == "abs":
                    ax.append("(or (= x%d %s) (= x%d (- %s)))" % (i, s.pstr(v.defn[1]), i, s.pstr(v.defn[1]))); todo += P.pvars(v.defn[1])
                if v.kind == "exp": ax.append("(> x%d 0.0)" % i)
                if st and i in st.sub: ax.append("(= x%d %s)" % (i, num(st.sub[i])))
                if v.kind in ("cos", "sin"):
                    u, q = v.defn; todo += [u["c"].i, u["s"].i] + s.anglevars(u, q)
                used.add(i)
        for i in list(used): close(i)
        used |= seen
        for i in s.ctx.rules:   # the component of a unit vector that was eliminated
            v = s.ctx.vars[i]
            if i not in used and v.kind == "var" and used & set(P.pvars(v.rule)):
                for j in P.pvars(v.rule): close(j)
                ax.append("(>= %s 0.0)" % s.pstr(v.rule))
        used |= seen
        for i in sorted(used): ax += s.angle_axioms(i, used)
        ac = []
        for i in sorted(used):
            v = s.ctx.vars[i]
            if v.kind == "acos" and len(v.defn.num.t) <= 60:   # bounds of the cosine near zero: 1-a^2/2 <= cos a <= 1-a^2/2+a^4/24
                r = v.defn; dn = []
                for x, e in r.den: dn += [fac(x)] * e
                for j in P.pvars(r.num) + [j for x, e in r.den for j in P.pvars(s.ctx.factors[x])]: close(j)
                n = s.pstr(r.num); c = "c%d" % i; a = "x%d" % i
                ac.append("(declare-const %s Real)" % c); ax.append("(= (* %s) %s)" % (" ".join([c] + dn), n) if dn else "(= %s %s)" % (c, n))
                ax.append("(and (<= (- 1.0) %s) (<= %s 1.0))" % (c, c))
                ax.append("(>= %s (- 1.0 (/ (* %s %s) 2.0)))" % (c, a, a)); ax.append("(=> (<= %s 1.0) (<= %s (+ (- 1.0 (/ (* %s %s) 2.0)) (/ (* %s %s %s %s) 24.0))))" % (a, c, a, a, a, a, a, a))
        ex = []
        for i in sorted(used):
            v = s.ctx.vars[i]
            if v.kind == "exp" and len(v.defn.num.t) <= 40:   # 1+g <= e^g, and e^g <= 1/(1-g) for g < 1; monotone
                r = v.defn; dn = []
                for x, e in r.den: dn += [fac(x)] * e
                for j in P.pvars(r.num) + [j for x, e in r.den for j in P.pvars(s.ctx.factors[x])]: close(j)
                n = s.pstr(r.num); g = "g%d" % i; a = "x%d" % i
                ac.append("(declare-const %s Real)" % g); ax.append("(= (* %s) %s)" % (" ".join([g] + dn), n) if dn else "(= %s %s)" % (g, n))
                ax.append("(>= %s (+ 1.0 %s))" % (a, g)); ax.append("(=> (< %s 1.0) (<= (* %s (- 1.0 %s)) 1.0))" % (g, a, g))
                ax.append("(= (< %s 0.0) (< %s 1.0))" % (g, a)); ax.append("(= (= %s 0.0) (= %s 1.0))" % (g, a))
                for j in ex: ax.append("(= (< %s g%d) (< %s x%d))" % (g, j, a, j))
                ex.append(i)
        op = []
        for i in sorted(used | seen):   # powers with any exponent: against 1, and against each other for equal base or exponent
            v = s.ctx.vars[i]
            if v.kind != "pow" or any(len(r.num.t) > 40 for r in v.defn): continue
            nm = []
            for l, r in zip("gh", v.defn):
                dn = []
                for x, e in r.den: dn += [fac(x)] * e
                for j in P.pvars(r.num) + [j for x, e in r.den for j in P.pvars(s.ctx.factors[x])]: close(j)
                n = s.pstr(r.num); g = "%s%d" % (l, i); nm.append(g)
                ac.append("(declare-const %s Real)" % g); ax.append("(= (* %s) %s)" % (" ".join([g] + dn), n) if dn else "(= %s %s)" % (g, n))
            g, h = nm; a = "x%d" % i
            ax.append("(=> (> %s 0.0) (> %s 0.0))" % (g, a)); ax.append("(=> (or (= %s 1.0) (= %s 0.0)) (= %s 1.0))" % (g, h, a))
            ax.append("(=> (and (> %s 0.0) (> %s 0.0)) (and (= (< %s 1.0) (< %s 1.0)) (= (> %s 1.0) (> %s 1.0))))" % (g, h, g, a, g, a))
            ax.append("(=> (and (> %s 0.0) (< %s 0.0)) (and (= (< %s 1.0) (> %s 1.0)) (= (> %s 1.0) (< %s 1.0))))" % (g, h, g, a, g, a))
            for j, k in op:
                w = s.ctx.vars[j].defn
                if w[1].key() == v.defn[1].key(): ax.append("(=> (and (> %s 0.0) (> g%d 0.0) (> %s 0.0)) (= (< %s g%d) (< %s x%d)))" % (g, j, h, g, j, a, j))
                elif w[0].key() == v.defn[0].key(): ax.append("(=> (> %s 1.0) (= (< %s h%d) (< %s x%d)))" % (g, h, j, a, j))
            op.append((i, a))
        used |= seen
        done = set(); pw = []
        while True:   # concave powers 0 < q < 1: b^q against 1, against b and its tangent at 1; monotone
            todo = [i for i in sorted(used | seen) if i not in done and s.ctx.vars[i].kind == "powq"]
            if not todo: break
            for i in todo:
                done.add(i); b, q = s.ctx.vars[i].defn; p = s.ctx.factors[b]
                if len(p.t) > 40: continue
                for j in P.pvars(p): close(j)
                g = "g%d" % i; a = "x%d" % i
                ac.append("(declare-const %s Real)" % g); ax.append("(= %s %s)" % (g, s.pstr(p))); ax.append("(>= %s 0.0)" % g); ax.append("(>= %s 0.0)" % a)
                ax.append("(= (< %s 1.0) (< %s 1.0))" % (g, a)); ax.append("(= (= %s 1.0) (= %s 1.0))" % (g, a)); ax.append("(= (= %s 0.0) (= %s 0.0))" % (g, a))
                ax.append("(=> (>= %s 1.0) (<= %s %s))" % (g, a, g)); ax.append("(=> (<= %s 1.0) (>= %s %s))" % (g, a, g)); ax.append("(<= %s (+ 1.0 (* %s (- %s 1.0))))" % (a, num(q), g))
                one = sum(abs(c) for c in p.t.values()) / p.q   # the tangent where the variables are one; slack for the rounding of its constants
                if one != 1:
                    t = float(one) ** float(q); ax.append("(<= %s (+ %s (* %s (- %s %s))))" % (a, num(t * (1 + 1e-12)), num(float(q) * t / float(one)), g, num(one))) if one > 0 else None
                for j, r in pw:
                    if r == q: ax.append("(= (< %s g%d) (< %s x%d))" % (g, j, a, j))
                pw.append((i, q))
        used |= seen
        txt = ["(declare-const x%d Real)" % i for i in sorted(used)] + ac + ["(declare-const |b_%s| Bool)" % b for b in sorted(bvs)]
        for f in sorted(defs): txt.append("(define-fun f%d () Real %s)" % (f, s.pstr(defs[f])))
        txt += rawtxt
        txt += ["(assert %s)" % a for a in ax + body]
        vals = ["x%d" % i for i in sorted(used) if s.ctx.vars[i].kind == "var"] + ["|b_%s|" % b for b in sorted(bvs)]
        return "\n".join(txt), vals
    def anglevars(s, u, q):
        """the variables of an angle whose sine and cosine determine its range"""
        r = u["rat"]
        if r is None or r.den or len(r.num.t) > 2: return []
        lo, hi = s.ctx.pint(r.num)
        return P.pvars(r.num) if lo / q >= -math.pi - 1e-9 and hi / q <= math.pi + 1e-9 else []
    def angle_axioms(s, i, used):
        """signs of the sine and cosine of an angle within [-pi,pi], against the angle itself (both must occur in the query)"""
        v = s.ctx.vars[i]
        if v.kind in ("cos", "sin"):
            u, q = v.defn; r = u["rat"]
            if r is None or r.den or len(r.num.t) > 4: return []
            lo, hi = s.ctx.pint(r.num)
            if not (lo / q >= -math.pi - 1e-9 and hi / q <= math.pi + 1e-9) or not all(j in used for j in P.pvars(r.num)): return []
            ang = s.pstr(P.pscale(r.num, Fr(1, q))); t = "x%d" % i
        elif v.kind in ("atan2", "acos"):
            ang = "x%d" % i; out = []
            for kind, r in (("cos", v.defn[0]), ("sin", v.defn[1])) if v.kind == "atan2" else (("cos", v.defn),):
                if not all(j in used for j in P.pvars(r.num)) or len(r.num.t) > 12: continue
                t = s.pstr(r.num); sg = POS
                for x, ee in r.den:
                    if not all(j in used for j in P.pvars(s.ctx.factors[x])): sg = 0; break
                    if ee % 2:
                        g = s.ctx.static_sign(x) & 5
                        sg = SMUL[sg, g]
                if sg not in (1, 4): continue
                if sg == 1: t = "(- %s)" % t
                out += s.angle_signs(kind, t, ang)
            return out
        else: return []
        return s.angle_signs(v.kind, t, ang)
    def angle_signs(s, kind, t, ang):
        PI = Fr(math.pi); e = Fr(1, 10 ** 12); L, Q0, Q1 = num(PI - e), num(PI / 2 - e), num(PI / 2 + e)
        if kind == "sin":
            return ["(=> (> %s 0.0) (> %s 0.0))" % (t, ang), "(=> (< %s 0.0) (< %s 0.0))" % (t, ang),
                    "(=> (= %s 0.0) (or (= %s 0.0) (>= %s %s) (<= %s (- %s))))" % (t, ang, ang, L, ang, L)]
        return ["(=> (> %s 0.0) (and (< %s %s) (> %s (- %s))))" % (t, ang, Q1, ang, Q1), "(=> (< %s 0.0) (or (> %s %s) (< %s (- %s))))" % (t, ang, Q0, ang, Q0),
                "(=> (= %s 0.0) (or (and (>= %s %s) (<= %s %s)) (and (<= %s (- %s)) (>= %s (- %s)))))" % (t, ang, Q0, ang, Q1, ang, Q0, ang, Q1)]
    def fvars(s, f, acc):
        o = f[0]
        if o == "s":
            for x in f[2] + f[3] + f[4]: acc.update(P.pvars(s.ctx.factors[x]))
        elif o == "near":
            acc.update(P.pvars(f[1].num))
            for x, e in f[1].den: acc.update(P.pvars(s.ctx.factors[x]))
        elif o == "bv": acc.add("b" + f[1])
        elif o == "raw": acc.update(s.rawvars(f[1]))
        elif o in ("not",): s.fvars(f[1], acc)
        elif o in ("and", "or"): s.fvars(f[1], acc); s.fvars(f[2], acc)
    def closure(s, acc):
        todo = list(acc); seen = set()
        while todo:
            i = todo.pop()
            if i in seen: continue
            seen.add(i)
            if isinstance(i, str): continue
            v = s.ctx.vars[i]
            if v.rule is not None: todo += P.pvars(v.rule)
            if v.kind in ("cos", "sin"): todo += [v.defn[0]["c"].i, v.defn[0]["s"].i] + s.anglevars(*v.defn)
        return seen
    def relevant(s, pc, goal, maxlen=None):
        acc = set(); s.fvars(goal, acc); acc = s.closure(acc); out = []; rest = []
        for f in pc:
            a = set(); s.fvars(f, a); rest.append((f, s.closure(a)))
        ch = True
        while ch:
            ch = False; nr = []
            for f, a in rest:
                if a & acc: out.append(f); acc |= a; ch = True
                else: nr.append((f, a))
            rest = nr
        return out
    def direct(s, pc, goal):
        acc = set(); s.fvars(goal, acc); acc = s.closure(acc); out = []
        for f in pc:
            a = set(); s.fvars(f, a)
            if s.closure(a) <= acc: out.append(f)
        return out
    def fsize(s, f):
        o = f[0]
        if o == "s": return sum(len(s.ctx.factors[x].t) for x in f[2] + f[3] + f[4])
        if o == "near": return len(f[1].num.t) + sum(len(s.ctx.factors[x].t) for x, e in f[1].den)
        if o == "not": return s.fsize(f[1])
        if o in ("and", "or"): return s.fsize(f[1]) + s.fsize(f[2])
        if o == "raw": return 400
        return 1
    def zsolve(s, forms, ms, values=False, st=None):
        txt, vals = s.encode(forms, st)
        t0 = time.time()
        r, m = s.z3.query(txt, ms, vals if values else None)
        if r.startswith("error"):
            s.notes["solver error"] = s.notes.get("solver error", 0) + 1
            if s.verbose: print(r, txt[:2000])
            r = "unknown"
        s.stats.add(r, time.time() - t0)
        return r, m
    def getmask(s, st):
        n = 0 if st.mask is None else len(st.mask)
        if n < s.N:
            ok = np.ones(s.N - n, bool)
            for t, pol in st.pct:
                a, b = s.evb(t)
                ok &= (a if pol else b)[n:]
            st.mask = ok if n == 0 else np.concatenate([st.mask, ok])
        return st.mask
    def add_model(s, st, m, n=6):
        """make sample columns out of a solver model (and a few perturbations of it)"""
        if m is None: return
        if s.N > 1500: return
        alive = np.nonzero(s.getmask(st))[0]
        base = int(s.rng.choice(list(alive))) if len(alive) else s.rng.randrange(s.N)
        for t in s.vals: s.vals[t] = np.concatenate([s.vals[t], np.full(n, s.vals[t][base])])
        for b in s.bvals: s.bvals[b] = np.concatenate([s.bvals[b], np.full(n, s.bvals[b][base])])
        old = s.N; s.N += n
        inv = {v.i: t for t, v in s.pvar.items()}
        for name, x in m.items():
            if name.startswith("|b_"): s.bvals[name[3:-1]][old:] = x != 0; continue
            if name.startswith("b_"): s.bvals[name[2:]][old:] = x != 0; continue
            t = inv.get(int(name[1:]))
            if t is None: continue
            nm, lo, hi = s.varinfo[t]
            for j in range(n):
                y = x if j < 2 else x + s.rng.gauss(0, 1) * (1e-3 if j < 4 else 0.05) * (1 + abs(x))
                s.vals[t][old + j] = min(max(y, lo), hi)
        s.fix_units(range(old, s.N))
        s.memo.clear()
    # ------------------------------------------------------------ path operations
    def add(s, st, t, pol):
        """extend the path condition with term t (or its negation)"""
        f = s.simp(st, s.lit(t))
        if not pol: f = s.neg(f)
        st.pct.append((t, pol))
        q = s.quick(st, f)
        if q is not True:
            st.pc.append(f)
            for _ in range(3): s.learn(st, f)
        if st.mask is not None:
            a, b = s.evb(t)
            n = len(st.mask)
            st.mask = st.mask & (a if pol else b)[:n]
    def feasible(s, st, f, t, pol):
        """can formula f (term t with polarity pol) hold on this path? True / False / "sat" (says the solver, no sample shows it) / None (unknown)"""
        q = s.quick(st, f)
        if q is False: return False
        m = s.getmask(st); a, b = s.evb(t)
        if (m & (a if pol else b)).any(): return True
        pc = s.relevant(st.pc, f)
        big = sum(s.fsize(x) for x in pc) + s.fsize(f)
        if s.fsize(f) > 1500: return None
        forms = pc + [f]
        if big > 3000: forms = s.direct(st.pc, f) + [f]
        r, mod = s.zsolve(forms, s.branch_ms, True, st)
        if r == "unsat": return False
        if r == "unknown" and len(forms) > 2:
            d = s.direct(st.pc, f)
            if len(d) + 1 < len(forms):
                r2, _ = s.zsolve(d + [f], s.branch_ms, False, st)
                if r2 == "unsat": return False
        if r == "sat":
            s.add_model(st, mod)
            m = s.getmask(st); a, b = s.evb(t)
            if (m & (a if pol else b)).any(): return True
            return "sat"
        return None
    def branch(s, st, t, kind):
        s.branches += 1
        f = s.simp(st, s.lit(t)); q = s.quick(st, f)
        if q is not None: return "T" if q else "F"
        ft = s.feasible(st, f, t, True)
        ff = s.feasible(st, s.neg(f), t, False)
        if ft is False and ff is False: return "K"
        if ft is False: s.add(st, t, False); return "F"
        if ff is False: s.add(st, t, True); return "T"
        s.forks += 1
        a = st.copy()
        # a side known to be feasible goes first
        rank = {True: 2, "sat": 1, None: 0}
        first = rank[ft] >= rank[ff]
        s.frames.append(("b", a, t, ff if first else ft, not first))
        s.add(st, t, first)
        if (ft if first else ff) is not True: st.unsure = True
        return "B" if first else "G"
    def assume(s, st, t):
        f = s.simp(st, s.lit(t)); q = s.quick(st, f)
        if q is False: return "K"
        if q is None:
            r = s.feasible(st, f, t, True)
            if r is False: return "K"
            if r is not True: st.unsure = True
        s.add(st, t, True)
        return "T"
    def conj(s, f):
        if f[0] == "and": return s.conj(f[1]) + s.conj(f[2])
        return [f]
    def lin_near(s, f):
        """|num| <= tol by bounds on each monomial (linear abstraction)"""
        d, tol = f[1], f[2]
        return d
    def prove(s, st, f, sec):
        """PC => f ?  'unsat' (proved), 'sat' (+model), 'unknown'"""
        q = s.quick(st, f)
        if q is True:
            s.simplified += 1
            # the verdict on the simplified goal is still the solver's
            r, _ = s.zsolve([("F",)], 1000, False, st)
            return "unsat", None
        if f[0] == "and":
            for g in s.conj(f):
                r, m = s.prove(st, g, sec)
                if r != "unsat": return r, m
            return "unsat", None
        if f[0] == "or":
            # a disjunct that holds outright?
            for g in (f[1], f[2]):
                if s.quick(st, g) is True: return s.prove(st, g, sec)
        ng = s.neg(f)
        if q is False: sec = min(sec, 5)
        pcs = [s.direct(st.pc, f)]
        rel = s.relevant(st.pc, f)
        if len(rel) != len(pcs[0]): pcs.append(rel)
        size = s.fsize(f)
        last = ("unknown", None)
        for idx, pc in enumerate(pcs):
            full = idx == len(pcs) - 1
            txt, vals = s.encode(pc + [ng], st)
            t0 = time.time()
            r, m = s.z3.query(txt, 1500, vals)
            if r.startswith("error"):
                s.notes["solver error"] = s.notes.get("solver error", 0) + 1
                if s.verbose: print(r[:500])
                r = "unknown"
            s.stats.add(r, time.time() - t0)
            if r == "unsat":
                if len(s.qsample) < 3 and 40 < len(txt) < 4000: s.qsample.append(txt)
                return "unsat", None
            if r == "sat" and full: return "sat", m
        for idx, pc in enumerate(pcs):
            if s.late(): break
            txt, vals = s.encode(pc + [ng], st)
            t0 = time.time()
            r, m, who = solver.portfolio(txt, sec, vals)
            s.stats.add(r, time.time() - t0, who)
            if r == "unsat": return "unsat", None
            if r == "sat" and idx == len(pcs) - 1: return "sat", m
        return last
    def inputs(s, st, k):
        d = {}
        for t, (name, lo, hi) in s.varinfo.items():
            if not name.startswith("uninit"): d[name] = float(s.vals[t][k])
        for b, v in s.bvals.items(): d[b] = 1.0 if v[k] else 0.0
        d.update(st.ints)
        return d
    def replay(s, model, tag="r"):
        """run the native build on a model -> (status, violated labels, ok labels, text)"""
        s.replays += 1
        f = os.path.join(s.work, "m_%s_%s_%d.txt" % (s.entry, tag, s.replays)); o = f[:-4] + ".out"
        with open(f, "w") as h:
            for n, v in model.items(): h.write("%s %s\n" % (n, float(v).hex()))
        if os.path.exists(o): os.unlink(o)
        try:
            p = subprocess.run([s.natexe, s.entry, f, o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
            rc = p.returncode
        except subprocess.TimeoutExpired: rc = "timeout"
        txt = open(o).read() if os.path.exists(o) else ""
        bad = set(); ok = set(); skip = set()
        for l in txt.split("\n"):
            w = l.split()
            if len(w) == 3 and w[0] == "CHECK": (bad if w[2] == "VIOLATED" else ok if w[2].startswith("ok") else skip).add(w[1])
        if rc == 4 or "ASSUME-FAILED" in txt: return "invalid", bad, ok, f
        if rc == "timeout": return "hang", bad, ok, f
        if rc not in (0, 3): return "crash", bad, ok, f
        return ("violated" if bad else "invalid" if skip else "ok"), bad, ok, f
    def report(s, label, st, model, f, what):
        s.viol.append({"label": label, "what": what, "inputs": model, "file": f})
        if "%s/%s" % (s.entry, label) not in s.known:
            open(s.stopfile, "w").close()   # the verdict on the property is settled: the other entries stop too
            s.hurry(20)
    def hurry(s, sec): s.early = True; s.deadline = min(s.deadline, time.time() + sec)
    def cut(s, st):
        """is the time for this doubtful part of the exploration over?"""
        if time.time() <= st.dl: return False
        if st.dl not in s.cuts: s.cuts.add(st.dl); s.undecided.append({"label": "exploration", "result": "time for paths not shown feasible"})
        return True
    def late(s):
        t = time.time()
        if not s.early and t > s.lastlook + 0.5:
            s.lastlook = t
            if os.path.exists(s.stopfile): s.hurry(5)
        return t > s.deadline
    def check(s, st, t, label):
        s.nchecks += 1
        L = s.labels.setdefault(label, {"reached": 0, "confirmed": 0})
        L["reached"] += 1
        if label != "lemma" and any(v["label"] == label for v in s.viol): return "K"   # already found broken
        if s.terms[t][0] == "true": s.simplified += 1; s.discharged += 1; return "T"
        f = s.simp(st, s.lit(t))
        q = s.quick(st, f)
        tried = set()
        def try_samples():
            a, b = s.evb(t, 1e-6)
            m = s.getmask(st)
            for k in [int(x) for x in np.nonzero(m & b)[0]]:
                if k in tried or len(tried) > 40: continue
                tried.add(k)
                if s.confirm(st, k, label): return True
            return False
        if q is not True and try_samples(): return "K"
        r, mod = s.prove(st, f, s.check_s)
        if r == "unsat":
            s.discharged += 1; return "T"
        for rnd in range(3):
            if r == "sat" and mod is not None:
                s.add_model(st, mod, 8)
                if try_samples(): return "K"
                # the model may satisfy the path only approximately: replay it as it is
                for k in range(s.N - 8, s.N):
                    if k in tried: continue
                    tried.add(k)
                    if s.confirm(st, k, label): return "K"
            break
        # more samples
        if not s.getmask(st).any() or st.unsure:
            rr, mm = s.pathmodel(st)
            if rr == "unsat": s.nchecks -= 1; return "K"
            if mm is not None:
                s.add_model(st, mm, 16)
                if try_samples(): return "K"
        s.undecided.append({"label": label, "result": r, "size": s.fsize(f)})
        if s.verbose: print("UNDECIDED", label, r, s.fsize(f), f if s.fsize(f) < 40 else "", [len(s.ctx.factors[x].t) for x in (f[2] if f[0] == "s" else ())])
        return "T"
    def pathmodel(s, st):
        if sum(s.fsize(f) for f in st.pc) > 20000: return "unknown", None
        txt, vals = s.encode(st.pc, st)
        sec = min(s.check_s, 6 if s.witness_s < 20 else 1)
        t0 = time.time(); r, m, who = solver.portfolio(txt, sec, vals); s.stats.add(r, time.time() - t0, who)
        s.witness_s += time.time() - t0
        return r, m
    def confirm(s, st, k, label):
        model = s.inputs(st, k)
        status, bad, ok, f = s.replay(model, "v")
        if status in ("crash", "hang") or (status == "violated"):
            lab = label if label in bad or status != "violated" else sorted(bad)[0]
            s.report(lab, st, model, f, status); return True
        return False
    # ------------------------------------------------------------ main loop
    def run(s):
        r1, w1 = os.pipe(); r2, w2 = os.pipe()   # r1: child reads replies; w2: child writes
        def pre():
            os.setsid()
            os.dup2(r1, 103); os.dup2(w2, 104); os.dup2(103, 3); os.dup2(104, 4)
        env = dict(os.environ)
        if s.verbose: env["SX_VERBOSE"] = "1"
        p = subprocess.Popen([s.symexe, s.entry], preexec_fn=pre, env=env, close_fds=False)
        os.close(r1); os.close(w2)
        rd = os.fdopen(r2, "r", buffering=1 << 16)
        st = State(); s.frames = []; idmap = {}; ended = None; done = False; stop = None
        def reply(c): os.write(w1, c.encode())
        try:
            for line in rd:
                w = line.split()
                c = w[0]
                if c == "n": s.define(w, idmap)
                elif c == "b":
                    if s.late(): stop = "time budget"; break
                    if s.cut(st): reply("K"); continue
                    reply(s.branch(st, idmap[int(w[1])], w[2]))
                elif c == "a": reply(s.assume(st, idmap[int(w[1])]))
                elif c == "k":
                    if s.late(): stop = "time budget"; break
                    if s.cut(st): reply("K"); continue
                    reply(s.check(st, idmap[int(w[1])], w[2]))
                    if len(s.viol) >= 3: stop = "violations"; break
                elif c == "u": s.unit_group([idmap[int(x)] for x in w[1:]]); st.mask = None; reply("T")
                elif c == "i":
                    s.frames.append(("i", st.copy(), w[1], int(w[3])))
                elif c == "I":
                    fr = s.frames[-1]; v = int(w[1]); st = fr[1].copy()
                    if fr[2] != "root": st.ints[fr[2]] = v
                    if v == fr[3] and fr[2] != "root": s.frames.pop()
                    ended = None
                elif c == "f": s.functions.update(w[1:])
                elif c == "e": ended = "e"; s.paths += 1; s.finish_path(st)
                elif c == "q": ended = "q"; s.pruned += 1
                elif c == "x":
                    if w[1] == "uninit": s.notes["uninitialised double read"] = s.notes.get("uninitialised double read", 0) + 1
                    elif w[1] == "bail": s.undecided.append({"label": "bail", "result": " ".join(w[2:])})
                elif c == "P":
                    if ended is None: s.crash(st, w[1])
                    if len(s.viol) >= 3: stop = "violations"; break
                    fr = s.frames[-1]
                    ended = None
                    if fr[0] == "b":
                        s.frames.pop(); st = fr[1]; s.add(st, fr[2], fr[4])
                        if fr[3] is not True: st.unsure = True
                        if fr[3] is None and st.dl == math.inf:   # possibly infeasible: it may not use up the time of the rest
                            now = time.time(); st.dl = now + max(0, s.deadline - now) / 3
                    else: ended = "i"
                elif c == "Z": done = True; break
                if s.paths + s.pruned > s.maxpaths: stop = "path budget"; break
        finally:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait(); rd.close(); os.close(w1); s.z3.kill()
        if not done and stop is None: stop = "executable ended unexpectedly"
        if stop and stop != "violations" and not (s.early and stop == "time budget"): s.undecided.append({"label": "exploration", "result": stop})
        return s
    def crash(s, st, how):
        """the code under test died on this path: a violation if the real code does so too"""
        m = s.getmask(st); ks = [int(k) for k in np.nonzero(m)[0]][:8]
        if not ks:
            r, mod = s.pathmodel(st)
            if r == "unsat": return
            if mod is not None:
                s.add_model(st, mod, 6); ks = list(range(s.N - 6, s.N))
        for k in ks:
            model = s.inputs(st, k); status, bad, ok, f = s.replay(model, "c")
            if status in ("crash", "hang"): s.report("no-crash", st, model, f, status + " " + how); return
            if status == "violated": s.report(sorted(bad)[0], st, model, f, status); return
        s.undecided.append({"label": "crash", "result": how})
    def finish_path(s, st):
        if st.unsure: s.unsure_paths += 1
        # validate the translation: a witness of this path, run on the real code, must pass its checks
        want = [l for l in s.labels if s.labels[l]["confirmed"] < 2]
        if want or s.validated < 20 or s.paths % 50 == 0:
            m = s.getmask(st); ks = np.nonzero(m)[0]
            if not len(ks) and want:
                r, mod = s.pathmodel(st)
                if mod is not None: s.add_model(st, mod, 6); ks = np.nonzero(s.getmask(st))[0]
            if len(ks):
                k = int(ks[s.rng.randrange(len(ks))]); model = s.inputs(st, k)
                status, bad, ok, f = s.replay(model, "w")
                if status == "ok":
                    s.validated += 1
                    for l in ok:
                        if l in s.labels: s.labels[l]["confirmed"] += 1
                    if len(s.samples_out) < 3: s.samples_out.append({"entry": s.entry, "inputs": {a: round(b, 6) for a, b in list(model.items())[:24]}, "checks": sorted(ok)})
                elif status in ("violated", "crash", "hang"):
                    # proved symbolically but fails natively
                    s.report(sorted(bad)[0] if bad else "no-crash", st, model, f, status + " on a witness")
    def summary(s):
        unreached = [l for l, v in s.labels.items() if not v["confirmed"] and l != "lemma"]
        return dict(entry=s.entry, paths=s.paths, pruned=s.pruned, branches=s.branches, forks=s.forks, checks=s.nchecks, discharged=s.discharged,
                    simplified=s.simplified, unsure=s.unsure_paths, queries=s.stats.queries, unsat=s.stats.unsat, sat=s.stats.sat, unknown=s.stats.unknown,
                    solver_s=round(s.stats.time, 2), solver_max=round(s.stats.max, 2), by=s.stats.by, labels=s.labels, unconfirmed=unreached, viol=s.viol,
                    undecided=s.undecided[:20], nundecided=len(s.undecided), notes=s.notes, functions=sorted(s.functions), validated=s.validated, replays=s.replays,
                    samples=s.samples_out, qsample=s.qsample, inputs=len(s.varinfo) + len(s.bvals))

def num(x):
    f = Fr(x)
    n = "(/ %d.0 %d.0)" % (abs(f.numerator), f.denominator) if f.denominator != 1 else "%d.0" % abs(f.numerator)
    return "(- %s)" % n if f < 0 else n
