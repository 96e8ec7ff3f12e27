"""Symbolic scalars: canonical polynomials over complex/real generators.

A value is a finite sum of coefficient * monomial.  A complex input z gives two
generators, z and its conjugate, treated as independent symbols, so that complex
conjugation is a map on polynomials; a real generator is its own conjugate.  A generator
can have a formal inverse (used for 1/norm and the like), which cancels on multiplication.
"""
import cmath, math

class Unsupported(Exception):
    """the engine cannot encode this operation: the case is inconclusive"""

class PathAbort(BaseException):
    """this symbolic path is infeasible / over budget"""

class Gen:
    __slots__ = ('name', 'kind', 'bound', 'pos', 'role', 'conj', 'inv', 'id', 'meta')
    def __init__(self, name, kind, bound, pos, role, id):
        self.name, self.kind, self.bound, self.pos, self.role, self.id = name, kind, bound, pos, role, id
        self.conj = id; self.inv = None; self.meta = None

class State:
    """everything one symbolic path has created"""
    def __init__(self):
        self.gens = []
        self.conj = []          # gen id -> id of conjugate
        self.inv = {}           # gen id -> inverse gen id (both ways)
        self.constraints = []   # (label, Sym == 0, trigger monomials or None)
        self.assumed = []       # human readable side conditions of stubs
        self.pathcond = []      # (kind, Sym, truth)
        self.sqrt_cache = {}
        self.reduce_sqrt = False
        self.inv_cache = {}
        self.recip = {}
        self.fn_cache = {}
        self.stub_cache = {}
        self.nzpoly = set()     # polynomials assumed nonzero (eigenvalues of 1 x 1 matrices)
        self.factors = []       # scalars split off by 1 x n and n x 1 factorisations
        self.stubs = {}         # stub name -> count
        self.decisions = []     # forced decisions (prefix)
        self.taken = []         # decisions made on this path
        self.pending = []       # alternative prefixes
        self.fork_oracle = None
        self.cmono = {}
        self.sqrt_of = {}       # sqrt generator -> its argument
        self.drawing = False

ST = State()

def reset(decisions=()):
    global ST
    ST.__init__(); ST.drawing = True
    ST.decisions = list(decisions)
    return ST

def new_gen(name, kind='c', bound=1.0, pos=False, role='input'):
    i = len(ST.gens)
    g = Gen(name, kind, bound, pos, role, i)
    ST.gens.append(g); ST.conj.append(i)
    if kind == 'c':
        h = Gen(name + '~', kind, bound, False, role, i + 1)
        ST.gens.append(h); ST.conj.append(i)
        ST.conj[i] = i + 1
        g.conj, h.conj = i + 1, i
    return g

def gen_sym(g):
    return Sym({(g.id,): 1.0}, g.kind == 'c')

def fresh(name, kind='c', bound=1.0, pos=False, role='aux'):
    return gen_sym(new_gen(name, kind, bound, pos, role))

EPS = 1e-15

def mono_mul(a, b):
    if not a: return b
    if not b: return a
    t = tuple(sorted(a + b))
    inv = ST.inv
    if inv:
        changed = False
        l = None
        for g in t:
            h = inv.get(g)
            if h is not None and h in t:
                changed = True
                break
        if changed:
            l = list(t)
            again = True
            while again:
                again = False
                for g in l:
                    h = inv.get(g)
                    if h is not None and h in l:
                        l.remove(g); l.remove(h)
                        again = True
                        break
            t = tuple(l)
    return t

def mono_conj(m):
    r = ST.cmono.get(m)
    if r is None:
        cj = ST.conj
        r = tuple(sorted([cj[g] for g in m]))
        ST.cmono[m] = r
    return r

def mono_bound(m):
    b = 1.0
    gs = ST.gens
    for g in m:
        b *= gs[g].bound
    return b

NUM = (int, float, complex, bool)

def to_num(x):
    """python number for a numpy/python number"""
    if isinstance(x, NUM):
        return x
    if hasattr(x, 'item') and not isinstance(x, Sym):
        return x.item()
    raise TypeError(x)

def isnum(x):
    return not isinstance(x, (Sym, SymBool))

class Sym:
    __slots__ = ('t', 'cx')
    __array_priority__ = 1000

    def __init__(self, t, cx):
        self.t = t
        self.cx = cx

    # numpy: let SymArray/np.ndarray operations go through our own ufunc hook
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.array_function(func, types, args, kwargs)

    shape = ()
    ndim = 0
    size = 1
    @property
    def dtype(self):
        import numpy as np
        return np.dtype(complex if self.cx else float)
    @property
    def T(self): return self
    def item(self, *a): return self
    def copy(self): return self
    def squeeze(self, *a): return self
    def tolist(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError('invalid index to scalar variable.')
    def _arr(self):
        from . import arr
        return arr.lift(self)
    def reshape(self, *s, **k): return self._arr().reshape(*s, **k)
    def astype(self, dt, **k): return self._arr().astype(dt)[()]
    def dot(self, o): return self * o
    def flatten(self): return self._arr().reshape(-1)
    ravel = flatten
    def sum(self, *a, **k): return self
    def round(self, *a): raise Unsupported('round of symbolic value')
    def transpose(self, *a): return self
    def mean(self, *a, **k): return self
    def prod(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self

    def key(self):
        return tuple(sorted((m, complex(c)) for m, c in self.t.items())) if False else \
            frozenset((m, round(complex(c).real, 12), round(complex(c).imag, 12)) for m, c in self.t.items())

    def conjugate(self):
        if not self.cx:
            return self
        return Sym({mono_conj(m): c.conjugate() for m, c in self.t.items()}, True)
    conj = conjugate

    @property
    def real(self):
        if not self.cx:
            return self
        out = {}
        for m, c in self.t.items():
            acc(out, m, c / 2)
            acc(out, mono_conj(m), c.conjugate() / 2)
        return mk(out, False)

    @property
    def imag(self):
        if not self.cx:
            return 0.0
        out = {}
        for m, c in self.t.items():
            acc(out, m, c * -0.5j)
            acc(out, mono_conj(m), c.conjugate() * 0.5j)
        return mk(out, False)

    def __neg__(self): return Sym({m: -c for m, c in self.t.items()}, self.cx)
    def __pos__(self): return self

    def __add__(self, o):
        if isinstance(o, Sym):
            a, b = self.t, o.t
            if len(a) < len(b): a, b = b, a
            out = dict(a)
            for m, c in b.items():
                acc(out, m, c)
            return mk(out, self.cx or o.cx)
        if isarr(o): return npop('add', self, o)
        try: o = to_num(o)
        except TypeError: return NotImplemented
        if o == 0 and not isinstance(o, complex): return self
        out = dict(self.t)
        acc(out, (), o)
        return mk(out, self.cx or isinstance(o, complex))
    def __radd__(self, o): return self.__add__(o)
    def __sub__(self, o):
        if isarr(o): return npop('subtract', self, o)
        return self + (-o if isinstance(o, Sym) else -to_num(o))
    def __rsub__(self, o):
        if isarr(o): return npop('subtract', o, self)
        return (-self) + o
    def __mul__(self, o):
        if isinstance(o, Sym):
            out = {}
            fma(out, self.t, o.t)
            return mk(out, self.cx or o.cx)
        if isarr(o): return npop('multiply', self, o)
        try: o = to_num(o)
        except TypeError: return NotImplemented
        cx = self.cx or isinstance(o, complex)
        if o == 0: return 0j if cx else 0.0
        return mk({m: c * o for m, c in self.t.items()}, cx)
    def __rmul__(self, o): return self.__mul__(o)
    def __truediv__(self, o):
        if isarr(o): return npop('true_divide', self, o)
        if isinstance(o, Sym):
            return self * inverse(o)
        o = to_num(o)
        if o == 0:
            raise Unsupported('division of a symbolic value by zero')
        return mk({m: c / o for m, c in self.t.items()}, self.cx or isinstance(o, complex))
    def __rtruediv__(self, o):
        if isarr(o): return npop('true_divide', o, self)
        return inverse(self) * o
    def __pow__(self, n):
        if isinstance(n, Sym): raise Unsupported('symbolic exponent')
        n = to_num(n)
        if n == 0.5:
            return sqrt(self)
        if n != int(n): raise Unsupported('fractional power')
        n = int(n)
        if n < 0:
            return inverse(self) ** (-n)
        r = 1.0
        for _ in range(n):
            r = self * r
        return r
    def __rpow__(self, o): raise Unsupported('symbolic exponent')
    def __matmul__(self, o): raise ValueError('matmul: Input operand 0 does not have enough dimensions')
    def __abs__(self): return absolute(self)
    def __float__(self):
        raise Unsupported('float() of a symbolic value')
    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')
    def __int__(self): raise Unsupported('int() of a symbolic value')
    __index__ = None
    def __bool__(self):
        return bool(self != 0)
    def __hash__(self): return hash(self.key())
    def __eq__(self, o):
        if isarr(o): return npop('equal', self, o)
        if o is None or isinstance(o, (str, list, tuple, dict)): return False
        d = self - o
        if isnum(d): return bool(d == 0)
        return SymBool('eq', d)
    def __ne__(self, o):
        if isarr(o): return npop('not_equal', self, o)
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else r.negate()
    def __lt__(self, o):
        if isarr(o): return npop('less', self, o)
        return cmp_lt(self, o, True)
    def __le__(self, o):
        if isarr(o): return npop('less_equal', self, o)
        return cmp_lt(self, o, False)
    def __gt__(self, o):
        if isarr(o): return npop('greater', self, o)
        return cmp_lt(o, self, True)
    def __ge__(self, o):
        if isarr(o): return npop('greater_equal', self, o)
        return cmp_lt(o, self, False)
    def sqrt(self): return sqrt(self)
    def exp(self): return unary('exp', self)
    def log(self): return unary('log', self)
    def cos(self): return unary('cos', self)
    def sin(self): return unary('sin', self)

    def __repr__(self):
        s = []
        for m, c in list(self.t.items())[:8]:
            s.append('%s*%s' % (c, '.'.join(ST.gens[g].name for g in m)) if m else str(c))
        return 'Sym(' + ' + '.join(s) + (' ...%d' % len(self.t) if len(self.t) > 8 else '') + ')'

def isarr(o):
    import numpy as np
    return isinstance(o, np.ndarray) and o.ndim >= 0

def npop(name, a, b):
    import numpy as np
    from . import arr
    return arr.array_ufunc(getattr(np, name), '__call__', (a, b), {})

def acc(out, m, c):
    v = out.get(m)
    if v is None:
        if c != 0:
            out[m] = c
    else:
        s = v + c
        if s == 0 or abs(s) < EPS * 16 * (abs(v) + abs(c)):
            del out[m]
        else:
            out[m] = s

def fma(out, a, b):
    """out += a*b on raw term dicts"""
    if len(a) > len(b): a, b = b, a
    if len(a) == 1 and () in a:
        k = a[()]
        for m, c in b.items():
            acc(out, m, c * k)
        return
    mm = mono_mul
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mm(m1, m2)
            c = c1 * c2
            v = out.get(m)
            if v is None:
                out[m] = c
            else:
                s = v + c
                if s == 0 or abs(s) < EPS * 16 * (abs(v) + abs(c)):
                    del out[m]
                else:
                    out[m] = s

def mk(t, cx):
    """Sym or plain number"""
    if not t:
        return 0j if cx else 0.0
    if len(t) == 1 and () in t:
        c = t[()]
        if cx:
            return complex(c)
        return c.real if isinstance(c, complex) else c
    if not cx:
        # coefficients may have become complex with zero imaginary part
        pass
    return Sym(t, cx)

def terms(x):
    if isinstance(x, Sym):
        return x.t
    x = to_num(x)
    return {(): x} if x != 0 else {}

def is_cx(x):
    if isinstance(x, Sym): return x.cx
    return isinstance(x, complex) or (hasattr(x, 'dtype') and x.dtype.kind == 'c')

def poly_bound(x):
    if isnum(x): return abs(x)
    return sum(abs(c) * mono_bound(m) for m, c in x.t.items())

def add_constraint(label, p, trig=None):
    """assert p == 0 (and its conjugate)"""
    if isnum(p):
        if abs(p) > 1e-9:
            ST.constraints.append((label, p, None))
        return
    ST.constraints.append((label, p, trig))
    q = p.conjugate()
    if q.cx and q.key() != p.key():
        ST.constraints.append((label + '~', q, None if trig is None else [mono_conj(m) for m in trig]))

def inverse(x):
    if isnum(x):
        return 1 / x
    if len(x.t) == 1:
        (m, c), = x.t.items()
        out = []
        for g in m:
            out.append(inv_gen(g))
        return mk({tuple(sorted(out)): 1 / c}, x.cx)
    k = x.key()
    if k in ST.inv_cache:
        return ST.inv_cache[k]
    w = fresh('inv%d' % len(ST.inv_cache), 'c' if (x.cx and not is_selfconj(x)) else 'r', bound=1e3)
    if x.cx: w = Sym(w.t, True)
    p = w * x - 1
    # trigger: any product of w with a monomial of x
    (wg,), = w.t.keys()
    ST.recip[wg] = x
    add_constraint('inverse', p, [mono_mul((wg,), m) for m in x.t])
    ST.assumed.append('divisor != 0')
    ST.inv_cache[k] = w
    return w

def inv_gen(g):
    h = ST.inv.get(g)
    if h is None:
        G = ST.gens[g]
        H = new_gen('1/' + G.name, G.kind, bound=1e3, pos=G.pos, role='aux')
        ST.inv[g] = H.id; ST.inv[H.id] = g
        if G.kind == 'c':
            ST.inv[G.conj] = H.conj; ST.inv[H.conj] = G.conj
        ST.assumed.append('%s != 0' % G.name)
        h = H.id
        x = ST.sqrt_of.get(g)
        if x is not None:       # g*g = x  times 1/g, 1/g^2
            hs = Sym({(h,): 1.0}, x.cx)
            add_constraint('sqrt/1', x * hs - Sym({(g,): 1.0}, x.cx), [mono_mul((h,), m) for m in x.t])
            add_constraint('sqrt/2', x * hs * hs - 1.0, [mono_mul((h, h), m) for m in x.t])
            if len(x.t) == 1:       # x = rest / (p q ..) :  rest / g^2 = p q ..
                (m, c), = x.t.items()
                rest = tuple(a for a in m if a not in ST.recip)
                if len(rest) < len(m):
                    p = 1.0 / c
                    for a in m:
                        if a in ST.recip: p = p * ST.recip[a]
                    add_constraint('@sqrt/3', mk({mono_mul((h, h), rest): 1.0}, x.cx) - p, [mono_mul((h, h), rest)])
    return h

def is_selfconj(x):
    if isnum(x): return complex(x).imag == 0
    if not x.cx: return True
    for m, c in x.t.items():
        d = x.t.get(mono_conj(m))
        if d is None or abs(d - c.conjugate()) > 1e-12 * (1 + abs(c)):
            return False
    return True

def sqrt(x):
    if isnum(x):
        import numpy as np
        return to_num(np.sqrt(x))
    # perfect squares of a monomial: sqrt(g^2) for nonnegative g
    if len(x.t) == 1:
        (m, c), = x.t.items()
        half, ok, rest = [], True, list(m)
        while rest:
            g = rest.pop()
            if g in rest and ST.gens[g].pos:
                rest.remove(g); half.append(g)
            else:
                ok = False; break
        if ok and complex(c).imag == 0 and complex(c).real > 0:
            return mk({tuple(sorted(half)): math.sqrt(complex(c).real)}, x.cx)
    k = x.key()
    r = ST.sqrt_cache.get(k)
    if r is None and ST.reduce_sqrt:
        from . import solve
        y = solve.normal_form(x)
        if isnum(y): return sqrt(y)
    if r is None:
        real = is_selfconj(x)
        b = math.sqrt(poly_bound(x))
        r = fresh('sqrt%d' % len(ST.sqrt_cache), 'r' if real else 'c', bound=max(b, 1e-3), pos=real)
        (g,), = r.t.keys()
        add_constraint('sqrt', r * r - x, [(g, g)])
        ST.sqrt_of[g] = x
        if real:
            ST.assumed.append('argument of sqrt >= 0')
        ST.sqrt_cache[k] = r
    if x.cx and not r.cx:
        r = Sym(r.t, True)
    return r

def absolute(x):
    if isnum(x): return abs(x)
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if all(ST.gens[g].pos for g in m):
            return mk({m: abs(c)}, False)
    if ST.reduce_sqrt:
        from . import solve
        y = solve.normal_form(x)
        if isnum(y): return abs(y)
    r = sqrt((x * x.conjugate()).real)
    return Sym(r.t, False) if isinstance(r, Sym) else r

def unary(fn, x):
    """uninterpreted (hash-consed) elementary function"""
    if isnum(x):
        import numpy as np
        return to_num(getattr(np, fn)(x))
    k = (fn, x.key())
    r = ST.fn_cache.get(k)
    if r is None:
        r = fresh('%s%d' % (fn, len(ST.fn_cache)), 'c' if x.cx else 'r', bound=1e3)
        (g,), = r.t.keys()
        ST.fn_cache[k] = r
        if x.cx:
            xc = x.conjugate()
            ST.fn_cache[(fn, xc.key())] = r.conjugate()
        if fn == 'exp':
            ST.gens[g].pos = not x.cx
            # exp(x) exp(-x) = 1
            h = inv_gen(g)
            ST.fn_cache[(fn, (-x).key())] = Sym({(h,): 1.0}, x.cx)
        if fn in ('cos', 'sin'):
            other = 'sin' if fn == 'cos' else 'cos'
            s = fresh('%s%d' % (other, len(ST.fn_cache)), 'c' if x.cx else 'r', bound=1e3)
            ST.fn_cache[(other, x.key())] = s
            ST.fn_cache[('cos', (-x).key())] = r if fn == 'cos' else s
            ST.fn_cache[('sin', (-x).key())] = -(s if fn == 'cos' else r)
            (g2,), = s.t.keys()
            add_constraint('cos2+sin2', r * r + s * s - 1, [(g, g) if fn == 'sin' else (g2, g2)])
    return r

# ---------------------------------------------------------------- booleans
def cmp_lt(a, b, strict):
    """a < b (or <=)"""
    if isnum(a) and math.isinf(abs(a)): return a.real < 0      # a symbol is finite
    if isnum(b) and math.isinf(abs(b)): return b.real > 0
    d = b - a
    if isnum(d):
        d = d.real if isinstance(d, complex) else d
        return d > 0 if strict else d >= 0
    # sign known from positivity of generators
    if not d.cx and all(all(ST.gens[g].pos for g in m) for m in d.t):
        cs = [complex(c).real for c in d.t.values()]
        if all(c > 0 for c in cs) and ((not strict) or () in d.t): return True
        if all(c < 0 for c in cs) and (strict or () in d.t): return False
    return SymBool('gt' if strict else 'ge', d)

class SymBool:
    """truth value of  p == 0 | p != 0 | p > 0 | p >= 0 | and/or of those"""
    __slots__ = ('op', 'p')
    def __init__(self, op, p):
        self.op, self.p = op, p
    NEG = {'eq': 'ne', 'ne': 'eq'}
    def negate(self):
        if self.op in ('eq', 'ne'): return SymBool(self.NEG[self.op], self.p)
        if self.op == 'gt': return SymBool('ge', -self.p)
        if self.op == 'ge': return SymBool('gt', -self.p)
        if self.op == 'and': return SymBool('or', [neg(x) for x in self.p])
        if self.op == 'or': return SymBool('and', [neg(x) for x in self.p])
    def __invert__(self): return self.negate()
    def __and__(self, o): return land([self, o])
    __rand__ = __and__
    def __or__(self, o): return lor([self, o])
    __ror__ = __or__
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self
    def item(self): return self
    shape = (); ndim = 0
    def __bool__(self):
        return decide(self)
    # as a number: 1 or 0, whichever side is taken
    def __float__(self): return 1.0 if decide(self) else 0.0
    def __int__(self): return 1 if decide(self) else 0
    __index__ = __int__
    def __complex__(self): return complex(float(self))
    def __mul__(self, o): return float(self) * (float(o) if isinstance(o, SymBool) else o)
    def __rmul__(self, o): return o * float(self)
    def __add__(self, o): return float(self) + (float(o) if isinstance(o, SymBool) else o)
    def __radd__(self, o): return o + float(self)
    def __sub__(self, o): return float(self) - (float(o) if isinstance(o, SymBool) else o)
    def __rsub__(self, o): return o - float(self)
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.array_ufunc(ufunc, method, inputs, kw)
    def __eq__(self, o):
        if o is True: return self
        if o is False: return self.negate()
        return NotImplemented
    def __hash__(self): return id(self)
    def __repr__(self): return 'SymBool(%s, %r)' % (self.op, self.p)

def neg(x):
    return x.negate() if isinstance(x, SymBool) else (not x)

def land(xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool): out.append(x)
        elif not x: return False
    if not out: return True
    return out[0] if len(out) == 1 else SymBool('and', out)

def lor(xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool): out.append(x)
        elif x: return True
    if not out: return False
    return out[0] if len(out) == 1 else SymBool('or', out)

def assumed_nonzero(p):
    """a single product of generators that are assumed nonzero (singular values, eigenvalues)"""
    if frozenset(p.t.items()) in ST.nzpoly: return True
    if len(p.t) != 1: return False
    m, = p.t
    return bool(m) and all(ST.gens[g].meta == 'nz' for g in m)

def interval(p):
    """range of a polynomial in real generators over the box, or None"""
    lo = hi = 0.0
    for m, c in p.t.items():
        if isinstance(c, complex):
            if c.imag: return None
            c = c.real
        a = b = c
        for g in m:
            g = ST.gens[g]
            if g.kind != 'r' or g.role != 'input': return None
            l, h = (POS_LO if g.pos else -g.bound), g.bound
            v = (a * l, a * h, b * l, b * h)
            a, b = min(v), max(v)
        lo += a; hi += b
    return lo, hi

POS_LO = 1 / 64.        # positive inputs stay this far from zero

def by_interval(b):
    if b.op not in ('eq', 'ne', 'gt', 'ge') or not isinstance(b.p, Sym): return None
    r = interval(b.p)
    if r is None: return None
    lo, hi = r
    if lo > 1e-6: return b.op != 'eq'
    if hi < -1e-6: return b.op == 'ne'
    return None

def decide(b):
    """take a branch: follow the prescribed prefix, then ask the solver which sides are possible"""
    if b.op in ('eq', 'ne') and isinstance(b.p, Sym) and assumed_nonzero(b.p):
        return b.op == 'ne'
    v = by_interval(b)
    if v is not None: return v
    i = len(ST.taken)
    if i < len(ST.decisions):
        v = ST.decisions[i]
    else:
        can_t, can_f = True, True
        if ST.fork_oracle is not None:
            can_t, can_f = ST.fork_oracle(b)
        if can_t and can_f:
            # generic side first: for equalities the generic side is "false"
            v = b.op not in ('eq',) if b.op in ('eq', 'ne') else True
            ST.pending.append(ST.taken + [not v])
        elif can_t: v = True
        elif can_f: v = False
        else: raise PathAbort('infeasible')
    ST.taken.append(v)
    ST.pathcond.append(b if v else b.negate())
    return v
