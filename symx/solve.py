"""Deciding step: obligations -> SMT queries (linear real arithmetic over monomials).

Every distinct monomial becomes one (self-conjugate) or two (real, imaginary part) real
variables, bounded by the product of its generators' bounds.  The stub contracts enter as
lemmas cofactor * contract, instantiated for the cofactors whose trigger occurs.  UNSAT
therefore means that no input in the box violates the obligation by more than tol.
"""
import itertools, math, time
from fractions import Fraction
import z3
from . import poly
from .poly import Sym, SymBool, terms, mono_conj, mono_bound, mono_mul, isnum

STAT = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_s': 0.0, 'lemmas': 0, 'monomials': 0, 'twins': 0}
GRID = 1 << 44
LEMMA_CAP = 60000
TIMEOUT_MS = 240000

class Enc:
    def __init__(self, timeout=TIMEOUT_MS):
        self.vars = {}
        self.decl = []
        self.bounds = []
        self.timeout = timeout

    def var(self, m):
        """(re name, im name or None, conj sign)"""
        v = self.vars.get(m)
        if v is not None: return v
        c = mono_conj(m)
        n = len(self.decl)
        b = frac(Fraction(mono_bound(m)) + Fraction(1, 1 << 20))
        if c == m:
            x = 'x%d' % n
            self.decl.append('(declare-fun %s () Real)' % x)
            lo = '0.0' if nonneg(m) else '(- %s)' % b
            self.bounds.append('(assert (and (<= %s %s) (<= %s %s)))' % (lo, x, x, b))
            v = (x, None, 1)
            self.vars[m] = v
        else:
            x, y = 'x%d' % n, 'y%d' % n
            self.decl.append('(declare-fun %s () Real)(declare-fun %s () Real)' % (x, y))
            self.bounds.append('(assert (and (<= (- %s) %s) (<= %s %s) (<= (- %s) %s) (<= %s %s)))' % (b, x, x, b, b, y, y, b))
            self.vars[m] = (x, y, 1)
            self.vars[c] = (x, y, -1)
            v = self.vars[m]
        return v

    def lin(self, t):
        """term dict -> (re expr, im expr, rounding error bound)"""
        re, im, err = [], [], 0.0
        for m, c in t.items():
            c = complex(c)
            mb = mono_bound(m)
            cr, e1 = rnd(c.real); ci, e2 = rnd(c.imag)
            err += (e1 + e2) * mb
            if not m:
                if cr: re.append(num(cr))
                if ci: im.append(num(ci))
                continue
            x, y, s = self.var(m)
            if cr: re.append('(* %s %s)' % (num(cr), x))
            if ci: im.append('(* %s %s)' % (num(ci), x))
            if y is not None:
                if ci: re.append('(* %s %s)' % (num(-s * ci), y))
                if cr: im.append('(* %s %s)' % (num(s * cr), y))
        return plus(re), plus(im), err

def nonneg(m):
    """monomial is a product of pairs g * conj(g) and of nonnegative generators"""
    l = list(m)
    cj = poly.ST.conj; gs = poly.ST.gens
    while l:
        g = l.pop()
        if gs[g].pos: continue
        if cj[g] in l: l.remove(cj[g])
        else: return False
    return True

def plus(l):
    if not l: return '0.0'
    if len(l) == 1: return l[0]
    return '(+ %s)' % ' '.join(l)

def rnd(c):
    if c == 0: return 0, 0.0
    f = Fraction(c)
    if f.denominator <= GRID: return f, 0.0
    g = Fraction(round(f * GRID), GRID)
    return g, abs(float(f - g))

def frac(f):
    f = Fraction(f)
    if f.denominator == 1: return '%d.0' % f.numerator
    return '(/ %d.0 %d.0)' % (f.numerator, f.denominator)

def num(f):
    if f < 0: return '(- %s)' % frac(-f)
    return frac(f)

def divides(t, m):
    """cofactor m/t or None"""
    if len(t) > len(m): return None
    l = list(m)
    for g in t:
        try: l.remove(g)
        except ValueError: return None
    return tuple(l)

class Index:
    """triggers of the constraints, by rarest generator"""
    def __init__(self, cons):
        self.cons = []
        self.by = {}
        self.full = []
        self._leads = None
        for label, p, trig in cons:
            if isnum(p): continue
            k = len(self.cons)
            self.cons.append((label, p))
            tr = trig if trig is not None else [max(p.t, key=lambda m: (len(m), m))]
            self.full.append((label, p, list(tr)))
            if label.startswith('@'): continue
            for t in set(tr):
                if not t: continue
                self.by.setdefault(max(t), []).append((t, k))

    def leads(self):
        """generator -> [(leading monomial, constraint)]"""
        if self._leads is None:
            self._leads = {}
            inv = poly.ST.inv
            for k, (label, p, tr) in enumerate(self.full):
                tr = [t for t in tr if t in p.t and t]
                if not tr: continue
                l = max(tr, key=lambda m: (-sum(1 for g in m if g in inv), tuple(sorted(m, reverse=True))))
                self._leads.setdefault(max(l), []).append((l, k, label.rstrip('~') if label.startswith('@') else ''))
        return self._leads

    def matches(self, m):
        seen = set()
        for g in set(m):
            for t, k in self.by.get(g, ()):
                cof = divides(t, m)
                if cof is not None and (k, cof) not in seen:
                    seen.add((k, cof))
                    yield k, cof

def closure(monos, index, cap=LEMMA_CAP):
    """instantiate cofactor*constraint lemmas reachable from monos"""
    seen = set(); used = set(); lemmas = []
    work = list(monos)
    for m in work: seen.add(m)
    while work:
        nxt = []
        for m in work:
            for k, cof in index.matches(m):
                if (k, cof) in used: continue
                used.add((k, cof))
                t = {}
                for m2, c in index.cons[k][1].t.items():
                    poly.acc(t, mono_mul(cof, m2), c)
                lemmas.append(t)
                if len(lemmas) > cap: return lemmas, False
                for m2 in t:
                    if m2 not in seen:
                        seen.add(m2); seen.add(mono_conj(m2)) if False else None
                        nxt.append(m2)
        work = nxt
    return lemmas, True

import os
DEBUG = os.environ.get('SYMX_DEBUG')
def dump(t):
    gs = poly.ST.gens
    print('remainder: %d terms' % len(t))
    for m, c in list(t.items())[:int(DEBUG)]: print('   ', c, ' '.join(gs[g].name for g in m))
DIRECTED_STEPS = 40000
DIRECTED_TERMS = 60000
def directed(polys, index, skip=(), out=None):
    """Pick lemmas by rewriting: each constraint, solved for its leading trigger (the one made of the youngest
    generators), rewrites the monomials it divides.  Returns (lemmas used, True) if every polynomial rewrites to zero:
    the lemmas then suffice, and are handed to the solver instead of everything reachable.  A small remainder is returned in its place."""
    lead = index.leads()
    if not lead: return [], False
    remainder = set()
    lemmas, used, steps = [], set(), 0
    for d in polys:
        t = dict(d)
        if not t: continue
        # a heap on monomials would do as well; terms are few enough for a worklist
        work = list(t)
        while work:
            m = work.pop()
            c = t.get(m)
            if c is None: continue
            hit = None
            gs = sorted(set(m), reverse=True)
            for first in (True, False):
                for g in gs:
                    for l, k, at in lead.get(g, ()):
                        if bool(at) is not first or at in skip: continue
                        cof = divides(l, m)
                        if cof is not None:
                            hit = (l, k, cof); break
                    if hit: break
                if hit: break
            if hit is None: continue
            steps += 1
            if steps > DIRECTED_STEPS or len(t) > DIRECTED_TERMS: return lemmas, False
            l, k, cof = hit
            if COUNT is not None: COUNT[(k, l)] += 1
            lc = index.cons[k][1].t[l]
            lem = {}
            for m2, c2 in index.cons[k][1].t.items():
                poly.acc(lem, mono_mul(cof, m2), c2)
            c1 = lem.get(m)
            if c1 is None: return lemmas, False
            if (k, cof) not in used:
                used.add((k, cof)); lemmas.append(lem)
            f = c / c1
            for m2, c2 in lem.items():
                if m2 == m: continue
                new = m2 not in t
                poly.acc(t, m2, -f * c2)
                if m2 in t: work.append(m2)
            t.pop(m, None)
        if out is not None: out.update(t)
        elif any(abs(c) > 1e-9 for c in t.values()):
            if DEBUG: dump(t)
            remainder |= set(m for m, c in t.items() if abs(c) > 1e-9)
            if len(remainder) > 400: return lemmas, False
    return lemmas, remainder or True

COUNT = None
def normal_form(x):
    """x rewritten by the constraints collected so far (a consequence of them), or x itself when the budget runs out"""
    if isnum(x): return x
    idx = Index(path_constraints())
    out = {}
    lem, rest = directed([x.t], idx, (), out)
    if rest is False: return x
    return poly.mk({m: c for m, c in out.items() if abs(c) > 1e-12}, x.cx)

def pick_lemmas(ds, index):
    best = None
    at = sorted({l for l, p in index.cons if l.startswith('@svd')})
    modes = [()] + ([('@svd:US=MV+',), ('@svd:SV=U+M',)] if at else [])
    for skip in modes:
        lemmas, rest = directed(ds, index, skip)
        if rest is True: return lemmas, True
        if rest and (best is None or len(rest) < len(best[1])): best = (lemmas, rest)
    if best is not None:
        more, complete = closure(best[1], index, 6000)
        if complete: return best[0] + more, 'maybe'
    return None, False

def path_constraints():
    out = list(poly.ST.constraints)
    for b in poly.ST.pathcond:
        out += eqs_of(b)
    return out

def eqs_of(b):
    if b.op == 'eq': return [('path', b.p, None), ('path~', b.p.conjugate(), None)]
    if b.op == 'and': return [x for e in b.p for x in (eqs_of(e) if isinstance(e, SymBool) else [])]
    return []

def ineqs_of(b):
    if b.op in ('gt', 'ge'): return [b]
    if b.op == 'and': return [x for e in b.p for x in (ineqs_of(e) if isinstance(e, SymBool) else [])]
    return []

def run(script, timeout):
    t = time.time()
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', timeout)
    s.from_string(script)
    r = s.check()
    STAT['queries'] += 1
    STAT['solver_s'] += time.time() - t
    name = str(r)
    STAT[name] = STAT.get(name, 0) + 1
    return name, s

def query(pairs, kind, tol, index, extra=(), timeout=TIMEOUT_MS, twin=False, saturate=False):
    """pairs: list of (lhs, rhs); kind 'eq' or 'le' (lhs <= rhs).  'unsat' = obligation proved"""
    enc = Enc(timeout)
    monos = set()
    for a, b in pairs:
        d = dict(terms(a))
        for m, c in terms(b).items(): poly.acc(d, m, -c)
        monos |= set(d)
    if kind == 'le' or extra:
        for b in extra: monos |= set(b.p.t)
    lemmas, complete = None, False
    if kind == 'eq' and not extra and not saturate:
        ds = []
        for a, b in pairs:
            d = dict(terms(a))
            for m, c in terms(b).items(): poly.acc(d, m, -c)
            ds.append(d)
        lemmas, complete = pick_lemmas(ds, index)
        STAT['directed'] = STAT.get('directed', 0) + bool(complete)
    again = complete == 'maybe'
    if not complete: lemmas, complete = closure(monos, index)
    STAT['lemmas'] += len(lemmas)
    body = []
    for t in lemmas:
        re, im, err = enc.lin(t)
        e = num(Fraction(err * 1.001) if err else 0)
        for x in (re, im):
            if x == '0.0': continue
            if err == 0: body.append('(assert (= %s 0.0))' % x)
            else: body.append('(assert (and (<= %s %s) (<= (- %s) %s)))' % (x, e, e, x))
    for b in extra:      # path inequalities (weakened by rounding)
        re, im, err = enc.lin(b.p.t)
        body.append('(assert (>= %s (- %s)))' % (re, frac(Fraction(err * 1.001))))
    neg = []
    for a, b in pairs:
        ra, ia, ea = enc.lin(terms(a))
        rb, ib, eb = enc.lin(terms(b))
        if twin: rb = '(+ %s 1.0)' % rb
        lim = tol - (ea + eb)
        if lim <= 0:
            if ea + eb > 1e-3:
                STAT['unknown'] += 1
                return 'unknown', None, len(lemmas)
            lim = tol * 1e-3
        T = frac(Fraction(lim))
        if kind == 'eq':
            neg.append('(> (- %s %s) %s)' % (ra, rb, T))
            neg.append('(> (- %s %s) %s)' % (rb, ra, T))
            if ia != '0.0' or ib != '0.0':
                neg.append('(> (- %s %s) %s)' % (ia, ib, T))
                neg.append('(> (- %s %s) %s)' % (ib, ia, T))
        else:
            neg.append('(> (- %s %s) %s)' % (ra, rb, T))
    STAT['monomials'] += len(enc.vars)
    script = '\n'.join(enc.decl + enc.bounds + body) + '\n(assert (or %s false))\n' % ' '.join(neg)
    r, s = run(script, timeout)
    if r != 'unsat' and again and not twin:
        return query(pairs, kind, tol, index, extra, timeout, twin, saturate=True)
    if r == 'sat' and not complete: r = 'unknown'
    return r, (enc, s) if r == 'sat' else None, len(lemmas)

def fork_oracle(b):
    """(can be true, can be false) over the box and the path so far"""
    idx = Index(path_constraints())
    ex = [x for p in poly.ST.pathcond for x in ineqs_of(p)]
    def possible(c):
        if c.op == 'eq':
            return True
        if c.op == 'ne':
            r, _, _ = query([(c.p, 0.0)], 'eq', 1e-9, idx, ex, 20000)
            return r != 'unsat'
        if c.op in ('gt', 'ge'):
            # c.p > 0 possible?  i.e. not provably c.p <= 0
            r, _, _ = query([(c.p, 0.0)], 'le', 1e-9, idx, ex, 20000)
            return r != 'unsat'
        if c.op == 'or':
            return any((e if not isinstance(e, SymBool) else possible(e)) for e in c.p)
        if c.op == 'and':
            return all((e if not isinstance(e, SymBool) else possible(e)) for e in c.p)
        return True
    t, f = possible(b), possible(b.negate())
    return t, f
