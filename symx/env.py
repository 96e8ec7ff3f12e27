"""Harness environment: inputs, obligations, and the numpy patches for symbolic runs."""
import builtins, hashlib, json, math, os, sys
import numpy as np

SEED = int(os.environ.get('VERIF_SEED', '1'))

def pinned(name, shape, cx, salt=0, grid=64):
    """deterministic generic numbers (multiples of 1/grid) for an input name"""
    h = hashlib.sha256(('%s|%s|%d|%d' % (name, tuple(shape), salt, SEED)).encode()).digest()
    rs = np.random.RandomState(np.frombuffer(h[:16], np.uint32))
    f = lambda: rs.randint(-grid + 1, grid, size=shape) / float(grid)
    return f() + 1j * f() if cx else f() * 1.0

def special(v, name, cx, mode):
    """inputs with a property a branch may ask about"""
    if not mode: return v
    a = mode.split(':')
    rs = np.random.RandomState(sum(map(ord, name)) % 1000)
    if a[0] == 'real': return v.real + 0 * v
    if a[0] == 'positive': return np.abs(v.real) + 0 * v
    if a[0] == 'imaginary': return 1j * v.imag if cx else v
    if a[0] == 'scaled': return v * float(a[1])
    if a[0] == 'mixed': return v * 10.0 ** (-rs.randint(0, 5, size=v.shape))
    if a[0] == 'sparse': return v * (rs.rand(*v.shape) > 0.5) + 1e-3 * v
    if v.ndim >= 2 and v.shape[-1] > 0:
        if a[0] == 'lowrank':
            n = v.shape[0]
            m = v.reshape(n, -1)
            return (float(a[1]) * m + np.outer(m[:, 0] if m.shape[1] else 0, m[0])).reshape(v.shape)
        if v.shape[-1] == v.shape[-2]:
            t = np.swapaxes(v, -1, -2)
            if a[0] == 'hermitian': return (v + t.conj()) / 2
            if a[0] == 'symmetric': return (v + t) / 2
            if a[0] == 'diagonal': return v * np.eye(v.shape[-1])
            if a[0] == 'unitary': return np.linalg.qr(v)[0]
    return v
MODES = ['real', 'mixed', 'hermitian', 'lowrank:0.01', 'scaled:0.001', 'symmetric', 'scaled:0.0001', 'diagonal', 'unitary', 'lowrank:0.001', 'positive', 'sparse', 'scaled:0.03', 'imaginary']

class Obl:
    __slots__ = ('label', 'kind', 'pairs', 'tol', 'truth', 'alts')
    def __init__(self, label, kind, pairs, tol, truth=None):
        self.alts = []          # other instances of an existential claim
        self.label, self.kind, self.pairs, self.tol, self.truth = label, kind, pairs, tol, truth

class BaseEnv:
    frozen = False      # inputs read-only
    strided = False     # inputs in Fortran order
    reals = False       # every input real, in arrays of real numbers
    def num(self, name, shape, cx=True, salt=0):
        cx = cx and not self.reals
        """concrete generic array: the same numbers in symbolic and real runs"""
        a = np.asarray(pinned('const:' + name, shape, cx, salt))
        return np.asfortranarray(a) if self.strided and a.ndim > 1 else a
    def herm(self, name, n):
        a = self.c(name, (n, n))
        return a + a.conj().T
    first = False       # the first input asked for is real
    rest = False        # all inputs but the first are real
    lead = False        # the first tensor of the first list is real
    def complex_(self, name):
        if self.reals: return False
        if not (self.first or self.rest or self.lead): return True
        base = name if self.lead else name.rstrip('0123456789')
        if not hasattr(self, '_first'): self._first = base
        return (base == self._first) == self.rest
    shared = False      # tensors of one shape in a list are one array
    def _list(self, one, shapes):
        if not self.shared: return [one(i, s) for i, s in enumerate(shapes)]
        seen = {}
        for i, s in enumerate(shapes):
            if tuple(s) not in seen: seen[tuple(s)] = one(i, s)
        return [seen[tuple(s)] for s in shapes]
    def cs(self, name, shapes):
        return self._list(lambda i, s: self.c('%s%d' % (name, i), s), shapes)
    def rs(self, name, shapes):
        return [self.r('%s%d' % (name, i), s) for i, s in enumerate(shapes)]
    def nums(self, name, shapes, cx=True):
        return self._list(lambda i, s: self.num('%s%d' % (name, i), s, cx), shapes)

class RealEnv(BaseEnv):
    sym = False
    def __init__(self, inputs=None, salt=0, tol_scale=1.0, mode=None):
        self.mode = mode
        self.inputs = inputs or {}
        self.salt = salt
        self.fail = []
        self.checked = 0
        self.used = {}
        self.skipped = False
    def _in(self, name, shape, cx):
        if name in self.inputs:
            v = np.array(self.inputs[name])
            v = (v[..., 0] + 1j * v[..., 1]) if cx else v * 1.0
            v = v.reshape(shape)
        else:
            v = special(pinned(name, shape, cx, self.salt), name, cx, self.mode)
        self.used[name] = v
        v = np.array(v, order='F' if self.strided else 'K')
        if self.frozen: v.flags.writeable = False
        return v
    def c(self, name, shape, bound=1.0): return self._in(name, shape, self.complex_(name))
    def r(self, name, shape, bound=1.0): return self._in(name, shape, False)
    def pos(self, name, shape, bound=1.0): return np.abs(self._in(name, shape, False)) + 1 / 64.
    def const(self, a): return np.array(a)
    def zeros(self, shape, cx=True): return np.zeros(shape, complex if cx else float)
    def eq(self, label, a, b, tol=1e-7):
        self.checked += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.fail.append((label, 'shape %s, expected %s' % (a.shape, b.shape))); return
        if a.size == 0: return
        with np.errstate(all='ignore'):
            d = np.abs(a.astype(complex) - b.astype(complex))
            lim = max(tol, 1e-6) * (1 + max(float(np.max(np.abs(b))), 0))
        if not np.all(d <= lim):
            i = np.unravel_index(int(np.nanargmax(np.where(np.isnan(d), np.inf, d))), d.shape)
            self.fail.append((label, 'entry %s: got %s, expected %s' % (tuple(int(k) for k in i), a[i], b[i])))
    def propto(self, label, a, b, tol=1e-7):
        """b = k a for some number k"""
        a, b = np.asarray(a, complex), np.asarray(b, complex)
        if a.shape == b.shape and a.size:
            a = a * (np.vdot(a, b) / np.vdot(a, a))
        self.eq(label, a, b, tol)
    def le(self, label, a, b, tol=1e-7):
        self.checked += 1
        a, b = np.asarray(a), np.asarray(b)
        if np.any(np.real(a) > np.real(b) + max(tol, 1e-6) * (1 + np.abs(b))) or np.any(np.isnan(a)):
            self.fail.append((label, '%s > %s' % (a, b)))
    def true(self, label, cond):
        self.checked += 1
        if not bool(cond): self.fail.append((label, 'false'))
    def assume(self, cond):
        if not bool(cond):
            self.skipped = True
            raise AssumeFailed()
    def raises(self, label, exc, f):
        self.checked += 1
        try: f()
        except exc: return
        self.fail.append((label, 'did not raise %s' % exc))
    def tmpfile(self, name):
        import tempfile
        if not hasattr(self, '_td'): self._td = tempfile.TemporaryDirectory()
        return os.path.join(self._td.name, name)

    def cut(self, label, x): return x

class AssumeFailed(Exception):
    pass

VFS = {}
def vfs_save(file, arr):
    from .arr import lift
    f = str(file)
    if not f.endswith('.npy'): f += '.npy'
    VFS[f] = lift(arr).copy()

class SymEnv(BaseEnv):
    sym = True
    def __init__(self):
        self.obls = []
        self.inputs = {}    # name -> (shape, cx, array of gens)
        self.files = 0
    def _in(self, name, shape, cx, bound, pos=False):
        from . import poly
        from .arr import wrap, _real_empty
        if name in self.inputs:         # asked for again: the same input
            assert self.inputs[name][:2] == (tuple(shape), cx), name
            return wrap(self.inputs[name][2].copy(), cx)
        o = _real_empty(shape, object)
        for ix in np.ndindex(*shape):
            o[ix] = poly.fresh('%s%s' % (name, list(ix)), 'c' if cx else 'r', bound * (math.sqrt(2) if cx else 1.0), pos, role='input')
        self.inputs[name] = (tuple(shape), cx, o.copy())
        o = wrap(np.asfortranarray(o) if self.strided and o.ndim > 1 else o, cx)
        if self.frozen: o.flags.writeable = False
        return o
    def c(self, name, shape, bound=1.0): return self._in(name, shape, self.complex_(name), bound)
    def r(self, name, shape, bound=1.0): return self._in(name, shape, False, bound)
    def pos(self, name, shape, bound=1.0): return self._in(name, shape, False, bound * 1.1, True)
    def const(self, a):
        from .arr import lift
        return lift(np.array(a)).copy()
    def zeros(self, shape, cx=True):
        from .arr import lift
        return lift(np.zeros(shape, complex if cx else float))
    def eq(self, label, a, b, tol=1e-7):
        from .arr import lift, o_
        from .poly import isnum
        a, b = lift(a), lift(b)
        if a.shape != b.shape:
            self.obls.append(Obl(label + ' (shape %s, expected %s)' % (a.shape, b.shape), 'true', None, tol, False)); return
        pairs = list(zip(o_(a).reshape(-1).tolist(), o_(b).reshape(-1).tolist()))
        # numbers: nan/inf cannot be encoded
        for x, y in pairs:
            if (isnum(x) and not np.isfinite(x)) or (isnum(y) and not np.isfinite(y)):
                self.obls.append(Obl(label + ' (not finite)', 'true', None, tol, False)); return
        if pairs:
            self.obls.append(Obl(label, 'eq', pairs, tol))
    def cut(self, label, x):
        """x rewritten by the contracts (shorter); that it equals x is an obligation of its own"""
        from .arr import lift, o_, wrap
        from . import solve
        x = lift(x)
        y = x.copy()
        f = o_(y).reshape(-1)
        for i in range(len(f)): f[i] = solve.normal_form(f[i])
        y = wrap(f.reshape(x.shape), x._cx)
        self.obls.append(Obl(label + ' (cut)', 'eq', list(zip(o_(x).reshape(-1).tolist(), o_(y).reshape(-1).tolist())), 1e-9))
        return y
    def propto(self, label, a, b, tol=1e-7):
        from .arr import lift, o_
        from . import poly
        a, b = lift(a), lift(b)
        if a.shape != b.shape:
            self.obls.append(Obl(label + ' (shape %s, expected %s)' % (a.shape, b.shape), 'true', None, tol, False)); return
        x, y = o_(a).reshape(-1).tolist(), o_(b).reshape(-1).tolist()
        F = poly.ST.factors[::-1]
        wit = F[:4] + [p * q for i, p in enumerate(F[:3]) for q in F[i + 1:3]] + [1.0]
        ob = Obl(label, 'eq', list(zip([wit[0] * v for v in x], y)), tol)
        ob.alts = [list(zip([k * v for v in x], y)) for k in wit[1:]]
        self.obls.append(ob)
    def le(self, label, a, b, tol=1e-7):
        from .arr import lift, o_, real
        a, b = real(lift(a)), real(lift(b))
        a, b = np.broadcast_arrays(o_(a), o_(b))
        self.obls.append(Obl(label, 'le', list(zip(a.reshape(-1).tolist(), b.reshape(-1).tolist())), tol))
    def true(self, label, cond):
        self.obls.append(Obl(label, 'true', None, 0, bool(cond)))
    def assume(self, cond):
        from .poly import SymBool, ST, PathAbort
        if isinstance(cond, SymBool):
            ST.pathcond.append(cond)
        elif not bool(cond):
            raise AssumeFailed()
    def raises(self, label, exc, f):
        try: f()
        except exc:
            self.obls.append(Obl(label, 'true', None, 0, True)); return
        self.obls.append(Obl(label, 'true', None, 0, False))
    def tmpfile(self, name):
        return '/nonexistent-vfs/' + name

# ---------------------------------------------------------------- numpy patches
PATCHED = False
def from_target(depth=2):
    n = sys._getframe(depth).f_globals.get('__name__', '')
    return n.startswith('xmps') or n.startswith('props')

def patch_numpy():
    """make array creators return SymArray when called from xmps or from a harness"""
    global PATCHED
    if PATCHED: return
    PATCHED = True
    from . import arr, stubs, poly
    from .arr import SymArray, lift, symbolic_numeric, uninit, deep_has_sym, wrap, o_
    R = {}
    def simple(name):
        fn = getattr(np, name); R[name] = fn
        def f(*a, **k):
            if not from_target(): return fn(*a, **k)
            a = [fix(x) for x in a]
            r = fn(*a, **k)
            return symbolic_numeric(r)
        def fix(x): return x
        f.__name__ = name
        f.__wrapped__ = fn
        setattr(np, name, f)
    for n in ('zeros', 'ones', 'eye', 'identity'):
        simple(n)
    def mk_full():
        fn = np.full
        def full(shape, v, dtype=None, **k):
            if not from_target(): return fn(shape, v, dtype=dtype, **k)
            if isinstance(v, (arr.Sym, SymArray)):
                z = lift(fn(shape, 0.0)); z._cx = arr.cxof(v); z[...] = v
                return z
            return symbolic_numeric(fn(shape, v, dtype=dtype, **k))
        np.full = full
    mk_full()
    # operators: scipy hands the vectors through np.asarray
    from scipy.sparse.linalg import LinearOperator
    def relift(name):
        fn = getattr(LinearOperator, name)
        def f(self, x):
            y = fn(self, x)
            return lift(y) if isinstance(y, np.ndarray) and y.dtype == object and not isinstance(y, SymArray) else y
        f.__name__ = name
        setattr(LinearOperator, name, f)
    for n in ('matvec', 'rmatvec', 'matmat', 'rmatmat'): relift(n)
    e = np.empty
    def empty(shape, dtype=float, *a, **k):
        if not from_target(): return e(shape, dtype, *a, **k)
        if isinstance(dtype, type) and dtype is object: return e(shape, dtype)
        return uninit(shape, dtype)
    np.empty = empty
    def draw(fn):
        """random draws: any values (bounded) in a symbolic case; their C code must see the real np.empty"""
        def f(*shape):
            if poly.ST.drawing and from_target():
                o = e(shape, object)
                for i in np.ndindex(shape):
                    o[i] = poly.fresh('draw%d' % len(poly.ST.gens), 'r', 6.0)
                return wrap(o, False) if shape else o[()]
            np.empty = e
            try: return fn(*shape)
            finally: np.empty = empty
        f.__wrapped__ = fn
        return f
    for n in ('randn', 'rand'):
        setattr(np.random, n, draw(getattr(np.random, n)))
    for n in ('zeros_like', 'ones_like', 'full_like', 'empty_like'):
        def like(n=n):
            fn = getattr(np, n)
            def f(a, *r, **k):
                res = fn(a, *r, **k)
                if not from_target(): return res
                if n == 'empty_like' and isinstance(res, np.ndarray) and not isinstance(res, SymArray): return uninit(res.shape, res.dtype)
                return symbolic_numeric(res)
            setattr(np, n, f)
        like()
    for n in ('array', 'asarray', 'asanyarray', 'ascontiguousarray'):
        def mkarr(n=n):
            fn = getattr(np, n)
            def f(x, dtype=None, *a, **k):
                if isinstance(x, (SymArray, arr.Sym)) or (isinstance(x, (list, tuple)) and deep_has_sym(x)):
                    if dtype is object or not from_target():
                        return fn(x, dtype, *a, **k)
                    r = lift(x)
                    if isinstance(x, SymArray) and n == 'array' and k.get('copy', True): r = r.copy()
                    if dtype is not None: r = r.astype(dtype)
                    nd_ = k.get('ndmin', 0)
                    while r.ndim < nd_: r = r[None]
                    return r
                if not isinstance(x, (list, tuple, np.ndarray, int, float, complex, np.generic, str)) and hasattr(x, '__iter__') and not hasattr(x, '__array__') and hasattr(x, '__len__') and not isinstance(x, (dict, set, range, str, bytes)):
                    l = list(x) if hasattr(x, '__getitem__') else None
                    if l is not None and deep_has_sym(l): return f(l, dtype, *a, **k)
                r = fn(x, dtype, *a, **k) if dtype is not None else fn(x, *a, **k)
                if from_target(): return symbolic_numeric(r) if n == 'array' else r
                return r
            f.__name__ = n; f.__wrapped__ = fn
            setattr(np, n, f)
        mkarr()
    ld = np.load
    def load(file, *a, **k):
        if str(file) in VFS: return VFS[str(file)].copy()
        if str(file).startswith('/nonexistent-vfs/'): raise FileNotFoundError(str(file))
        return ld(file, *a, **k)
    np.load = load
    sv = np.save
    def save(file, a, *r, **k):
        if str(file).startswith('/nonexistent-vfs/'): return vfs_save(file, a)
        if isinstance(a, (list, tuple)) and deep_has_sym(a): a = lift(a)
        return sv(file, a, *r, **k)
    np.save = save
    for n in ('frombuffer', 'fromiter'):
        pass
    # functions that numpy would apply to a list of symbolic arrays without asking us
    for n in ('mean', 'sum', 'prod', 'max', 'min', 'amax', 'amin', 'cumsum', 'cumprod', 'trace', 'transpose', 'swapaxes', 'moveaxis', 'reshape',
              'squeeze', 'ravel', 'expand_dims', 'tensordot', 'dot', 'matmul', 'kron', 'outer', 'inner', 'vdot', 'einsum', 'average',
              'allclose', 'isclose', 'array_equal', 'shape', 'ndim', 'size', 'flip', 'fliplr', 'flipud', 'roll', 'repeat', 'tile',
              'take', 'diagonal', 'split', 'array_split', 'real', 'imag', 'angle', 'sort', 'argsort', 'argmax', 'argmin', 'nan_to_num', 'iscomplexobj'):
        def listy(n=n):
            fn = getattr(np, n)
            def f(*a, **k):
                if any(isinstance(x, (list, tuple)) and deep_has_sym(x) for x in a[:2]):
                    b = [lift(x) if isinstance(x, (list, tuple)) and deep_has_sym(x) else x for x in a[:2]] + list(a[2:])
                    if n == 'einsum': b = [lift(x) if isinstance(x, (list, tuple)) and deep_has_sym(x) else x for x in a]
                    return fn(*b, **k)
                return fn(*a, **k)
            f.__name__ = n; f.__wrapped__ = fn
            setattr(np, n, f)
        listy()
    for f in ('diag', 'diagflat'):
        def dg(f=f):
            fn = getattr(np, f)
            def g(*a, **k):
                r = fn(*a, **k)
                return symbolic_numeric(r) if from_target() and isinstance(r, np.ndarray) and not isinstance(r, SymArray) and a and getattr(a[0], 'ndim', 1) == 1 else r
            g.__name__ = f
            setattr(np, f, g)
        dg()
    stubs.patch_scipy()

def patch_modules():
    """`type(x) == np.ndarray` in target modules must accept the symbolic array"""
    from .arr import SymArray
    def type_(*a):
        if len(a) == 1:
            return np.ndarray if isinstance(a[0], SymArray) else builtins.type(a[0])
        return builtins.type(*a)
    for n, m in list(sys.modules.items()):
        if n.startswith('xmps') and m is not None:
            m.__dict__.setdefault('type', type_)
