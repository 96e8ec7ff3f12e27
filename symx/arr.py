"""SymArray: an ndarray subclass whose elements are python numbers or symbolic polynomials.

The real xmps functions run on it unchanged: views, slicing, reshaping, broadcasting and
aliasing are numpy's own; arithmetic goes to symx.poly; LAPACK-backed functions go to
symx.stubs (or to the real LAPACK when every entry is a number).  The floating type the
array would have had (float / complex) is tracked so that casts behave as numpy's do.
"""
import builtins, itertools, string, sys
import numpy as np
from . import poly
from .poly import Sym, SymBool, Unsupported, isnum, to_num, fma, mk, terms, is_cx, land, lor

nd = np.ndarray
_real_array = np.array
_real_asarray = np.asarray
_real_empty = np.empty
_real_einsum = np.einsum
FC = (np.dtype(float), np.dtype(complex))

class NumC(complex):
    """a numeric element: behaves like the numpy scalar (conj, int with the imaginary part dropped, ...)"""
    shape, ndim, size = (), 0, 1
    dtype = np.dtype(complex)
    def __int__(self): return int(complex.real.__get__(self))
    def __float__(self): return float(complex.real.__get__(self))
    def conj(self): return NumC(self.conjugate())
    def item(self): return complex(self)
    def copy(self): return self
    def reshape(self, *s): return lift(np.array(complex(self))).reshape(*s)
class NumF(float):
    shape, ndim, size = (), 0, 1
    dtype = np.dtype(float)
    def conj(self): return self
    conjugate = conj
    def item(self): return float(self)
    def copy(self): return self
    def astype(self, t): return t(self)
    def reshape(self, *s): return lift(np.array(float(self))).reshape(*s)

class SymArray(np.ndarray):
    __array_priority__ = 2000

    def __array_finalize__(self, obj):
        self._cx = getattr(obj, '_cx', True) if obj is not None else True

    # ---- type
    @property
    def dtype(self):
        if self._cx is None:
            return np.dtype(bool)
        return np.dtype(complex) if self._cx else np.dtype(float)
    @property
    def real(self): return real(self)
    @real.setter
    def real(self, v):
        self[...] = real(lift(v)) + (1j * imag(self) if self._cx else 0)
    @property
    def imag(self): return imag(self)
    def conj(self): return conj(self)
    conjugate = conj
    @property
    def T(self): return self.transpose()
    def astype(self, dt, *a, **k):
        dt = np.dtype(dt)
        if dt.kind == 'c':
            r = self.copy(); r._cx = True
            return r
        if dt.kind == 'f':
            r = wrap(o_(real(self)).copy(), False) if self._cx else self.copy()
            return r
        if dt.kind == 'O':
            return self.copy()
        c = const(self)
        if c is None:
            if dt.kind == 'b':
                return decide_mask(self != 0)
            raise Unsupported('astype(%s) of symbolic array' % dt)
        return c.astype(dt)
    def tolist(self): return o_(self).tolist()
    def item(self, *a): return o_(self).item(*a)
    def copy(self, order='C'): return wrap(o_(self).copy(order), self._cx)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def dot(self, b, *inds):
        if inds and inds[0] is not None and not isinstance(inds[0], np.ndarray):
            raise TypeError('dot: return array has wrong type')
        return dot(self, b)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def __imatmul__(self, o): return NotImplemented
    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        return rewrap(nd.trace(o_(self), offset, axis1, axis2), self._cx)
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return rewrap(np.add.reduce(o_(self), axis=axis, keepdims=keepdims) if axis is not None or keepdims
                      else np.add.reduce(o_(self).reshape(-1)), self._cx)
    def prod(self, axis=None, **k):
        return rewrap(np.multiply.reduce(o_(self), axis=axis) if axis is not None
                      else np.multiply.reduce(o_(self).reshape(-1)), self._cx)
    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis) / n
    def all(self, axis=None, **k): return all_(self, axis)
    def any(self, axis=None, **k): return any_(self, axis)
    def max(self, axis=None, **k): return np.max(self, axis)
    def min(self, axis=None, **k): return np.min(self, axis)
    def argmax(self, *a, **k): return np.argmax(self, *a, **k)
    def argsort(self, *a, **k): return np.argsort(self, *a, **k)
    def round(self, *a, **k): return np.round(self, *a, **k)
    def nonzero(self): return np.nonzero(self)
    def diagonal(self, offset=0, axis1=0, axis2=1):
        return wrap(nd.diagonal(o_(self), offset, axis1, axis2), self._cx)
    def __bool__(self):
        if self.size == 1:
            return builtins.bool(self.reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
    def __float__(self): return float(self.item())
    def __complex__(self): return complex(self.item())
    def __int__(self): return int(self.item())
    def __abs__(self): return np.absolute(self)
    def tobytes(self, *a): raise Unsupported('tobytes of symbolic array')
    def tofile(self, *a): raise Unsupported('tofile of symbolic array')

    # ---- indexing
    def __getitem__(self, k):
        r = nd.__getitem__(self, fix_index(k))
        if isinstance(r, SymArray):
            r._cx = self._cx
        elif isinstance(r, complex) or (self._cx and isinstance(r, (float, int)) and not isinstance(r, bool)):
            r = NumC(r)
        elif isinstance(r, float):
            r = NumF(r)
        elif self._cx and isinstance(r, Sym) and not r.cx:
            r = Sym(r.t, True)
        return r
    def __setitem__(self, k, v):
        k = fix_index(k)
        if self._cx is None:
            pass
        elif not self._cx:
            if isinstance(v, complex):
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            if isinstance(v, np.ndarray) or isinstance(v, (list, tuple, Sym)) or isinstance(v, np.generic):
                v = lift(v)
                if v._cx:
                    v = real(v)      # numpy: ComplexWarning, imaginary part discarded
        if isinstance(v, np.ndarray):
            v = o_(v) if isinstance(v, SymArray) else v.astype(object)
            if v.ndim == 0 and v.size == 1:
                v = v.item()
        elif isinstance(v, np.generic):
            v = v.item()
        elif isinstance(v, (list, tuple)):
            v = o_(lift(v))
        nd.__setitem__(self, k, v)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)
    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)
    def __repr__(self):
        return 'SymArray(%s,cx=%s)' % (nd.__repr__(o_(self)), self._cx)
    __str__ = __repr__
    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

def fix_index(k):
    if isinstance(k, tuple):
        return tuple(fix_index(x) for x in k) if builtins.any(isinstance(x, (SymArray, Sym, SymBool)) for x in k) else k
    if isinstance(k, SymArray):
        if k._cx is None:
            return decide_mask(k)
        c = const(k)
        if c is None: raise Unsupported('symbolic index')
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(k, SymBool):
        return builtins.bool(k)
    return k

def decide_mask(m):
    o = o_(m)
    r = _real_empty(o.shape, bool)
    for i in np.ndindex(o.shape):
        r[i] = builtins.bool(o[i])
    return r

def o_(a):
    """plain object ndarray sharing memory"""
    if isinstance(a, SymArray):
        return a.view(np.ndarray)
    return a

def wrap(o, cx):
    if isinstance(o, np.ndarray):
        if o.dtype != object:
            o = o.astype(object)
        r = o.view(SymArray)
        r._cx = cx
        return r
    return o

def rewrap(r, cx):
    """result of an object computation -> SymArray, Sym or number"""
    if isinstance(r, np.ndarray):
        return wrap(r, cx)
    if isinstance(r, Sym):
        return r if (r.cx or not cx) else Sym(r.t, True)
    if isinstance(r, SymBool) or isinstance(r, (bool, np.bool_)):
        return r
    if isinstance(r, (int, float, complex, np.generic)):
        r = to_num(r)
        return np.complex128(r) if cx else np.float64(r.real if isinstance(r, complex) else r)
    return r

def lift(x):
    if isinstance(x, SymArray):
        return x
    if isinstance(x, Sym):
        o = _real_empty((), object); o[()] = x
        return wrap(o, x.cx)
    if isinstance(x, SymBool):
        o = _real_empty((), object); o[()] = x
        return wrap(o, None)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return wrap(x, builtins.any(is_cx(e) for e in x.reshape(-1)))
        if x.dtype.kind == 'b':
            return wrap(x.astype(object), None)
        return wrap(x.astype(object), x.dtype.kind == 'c')
    if isinstance(x, (list, tuple)):
        if not deep_has_sym(x):
            return lift(_real_array(x))
        return from_nested(x)
    if isinstance(x, (int, float, complex, np.generic)):
        x = to_num(x)
        o = _real_empty((), object); o[()] = x
        return wrap(o, isinstance(x, complex))
    raise Unsupported('cannot lift %r' % type(x))

def deep_has_sym(x):
    if isinstance(x, (Sym, SymArray, SymBool)): return True
    if isinstance(x, (list, tuple)): return builtins.any(deep_has_sym(e) for e in x)
    return False

def from_nested(x):
    els = [lift(e) for e in x]
    sh = els[0].shape
    if builtins.any(e.shape != sh for e in els):
        raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape after 1 dimensions.')
    o = _real_empty((len(els),) + sh, object)
    for i, e in enumerate(els):
        if sh == (): o[i] = o_(e)[()]
        else: o[i] = o_(e)
    return wrap(o, builtins.any(bool(e._cx) for e in els))

def const(a):
    """numeric ndarray if no entry is symbolic, else None"""
    if not isinstance(a, SymArray):
        if isinstance(a, (Sym, SymBool)): return None
        if isinstance(a, (list, tuple)) and deep_has_sym(a):
            return const(lift(a))
        return a
    o = o_(a)
    for e in o.reshape(-1):
        if not isnum(e): return None
    if a._cx is None: return o.astype(bool)
    return o.astype(complex if a._cx else float)

def cxof(*xs):
    for x in xs:
        if isinstance(x, SymArray):
            if x._cx: return True
        elif isinstance(x, Sym):
            if x.cx: return True
        elif isinstance(x, complex): return True
        elif isinstance(x, (np.ndarray, np.generic)):
            if x.dtype.kind == 'c': return True
        elif isinstance(x, (list, tuple)):
            if cxof(*x): return True
    return False

def asobj(x):
    if isinstance(x, SymArray): return o_(x)
    if isinstance(x, np.ndarray): return x if x.dtype == object else x.astype(object)
    if isinstance(x, np.generic): return x.item()
    if isinstance(x, (list, tuple)): return o_(lift(x))
    return x

# ------------------------------------------------------------ element functions
def conj1(x): return x.conjugate()
def real1(x): return x.real
def imag1(x): return x.imag
_pyreal = np.frompyfunc(real1, 1, 1)
_pyimag = np.frompyfunc(imag1, 1, 1)
_pyconj = np.frompyfunc(conj1, 1, 1)

def ofun(f, *xs):
    r = f(*xs)
    return r

def real(a):
    a = lift(a)
    if a._cx is not True: return a      # view, as numpy
    return wrap(_aso(_pyreal(o_(a)), a.shape), False)

def imag(a):
    a = lift(a)
    return wrap(_aso(_pyimag(o_(a)), a.shape), False)

def conj(a):
    a = lift(a)
    if a._cx is not True: return a.copy()
    return wrap(_aso(_pyconj(o_(a)), a.shape), True)

def _aso(r, shape):
    if isinstance(r, np.ndarray): return r
    o = _real_empty(shape, object); o[...] = r
    return o

def scalarize(a):
    """0-d SymArray -> scalar, as numpy ufuncs do"""
    if isinstance(a, SymArray) and a.ndim == 0:
        return rewrap(a.item(), a._cx)
    return a

def div1(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a / b
    with np.errstate(all='ignore'):
        r = (np.complex128(a) if isinstance(a, complex) else np.float64(a)) / \
            (np.complex128(b) if isinstance(b, complex) else np.float64(b))
    return r.item()

def sqrt1(x): return poly.sqrt(x)
def abs1(x): return poly.absolute(x)
def sign1(x):
    if isnum(x): return to_num(np.sign(x))
    if not x.cx:
        if x > 0: return 1.0
        if x < 0: return -1.0
        return 0.0
    # numpy 1.x: sign of the real part (imaginary part if real part is 0)
    re = x.real
    if isnum(re): return complex(np.sign(re)) if re != 0 else sign1(x.imag) + 0j
    if re > 0: return 1 + 0j
    if re < 0: return -1 + 0j
    return sign1(x.imag) + 0j
def pow1(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym): return a ** b
    with np.errstate(all='ignore'):
        return to_num(np.power(np.complex128(a) if isinstance(a, complex) or isinstance(b, complex) else np.float64(a), b))
def eq1(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool): raise Unsupported('== on booleans')
    return a == b
def ne1(a, b): return poly.neg(eq1(a, b))
def lt1(a, b): return a < b
def le1(a, b): return a <= b
def gt1(a, b): return a > b
def ge1(a, b): return a >= b
def and1(a, b): return land([tb(a), tb(b)])
def or1(a, b): return lor([tb(a), tb(b)])
def not1(a): return poly.neg(tb(a))
def tb(x):
    if isinstance(x, SymBool): return x
    if isinstance(x, Sym): return x != 0
    return builtins.bool(x)
def max1(a, b):
    if isnum(a) and isnum(b): return max(a, b)
    return a if (a >= b) else b
def min1(a, b):
    if isnum(a) and isnum(b): return min(a, b)
    return a if (a <= b) else b
def finite1(x): return True if isinstance(x, Sym) else builtins.bool(np.isfinite(x))
def nan1(x): return False if isinstance(x, Sym) else builtins.bool(np.isnan(x))
def fn1(name):
    def f(x): return poly.unary(name, x)
    return f
def numonly(name):
    fn = getattr(np, name)
    def f(*xs):
        if not builtins.all(isnum(x) for x in xs): raise Unsupported('np.%s of a symbolic value' % name)
        with np.errstate(all='ignore'):
            return to_num(fn(*xs))
    return f

UF = {}   # ufunc name -> (python function, output kind: 'p' promote,'r' real,'b' bool)
def _reg(name, f, kind, nin):
    UF[name] = (np.frompyfunc(f, nin, 1), kind)
_reg('true_divide', div1, 'p', 2); _reg('divide', div1, 'p', 2)
_reg('sqrt', sqrt1, 'p', 1); _reg('absolute', abs1, 'r', 1); _reg('fabs', abs1, 'r', 1)
_reg('sign', sign1, 'p', 1); _reg('power', pow1, 'p', 2); _reg('float_power', pow1, 'p', 2)
_reg('square', lambda x: x * x, 'p', 1)
_reg('reciprocal', lambda x: div1(1.0, x), 'p', 1)
for n, f in [('equal', eq1), ('not_equal', ne1), ('less', lt1), ('less_equal', le1), ('greater', gt1),
             ('greater_equal', ge1), ('logical_and', and1), ('logical_or', or1), ('bitwise_and', and1), ('bitwise_or', or1)]:
    _reg(n, f, 'b', 2)
_reg('logical_not', not1, 'b', 1); _reg('invert', not1, 'b', 1)
_reg('maximum', max1, 'p', 2); _reg('minimum', min1, 'p', 2)
_reg('isfinite', finite1, 'b', 1); _reg('isnan', nan1, 'b', 1); _reg('isinf', lambda x: False if isinstance(x, Sym) else builtins.bool(np.isinf(x)), 'b', 1)
for n in ('exp', 'log', 'cos', 'sin'):
    _reg(n, fn1(n), 'p', 1)
for n in ('arccos', 'arcsin', 'arctan', 'tan', 'tanh', 'sinh', 'cosh', 'floor', 'ceil', 'rint', 'trunc', 'log2', 'log10', 'expm1', 'log1p'):
    _reg(n, numonly(n), 'p', 1)
for n in ('arctan2', 'fmod', 'remainder', 'floor_divide', 'hypot'):
    _reg(n, numonly(n), 'p', 2)
NATIVE = {'add', 'subtract', 'multiply', 'negative', 'positive'}

def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    kw.pop('where', None) if kw.get('where', True) is True else None
    if 'where' in kw: raise Unsupported('ufunc where=')
    for drop in ('casting', 'order', 'subok', 'dtype'):
        kw.pop(drop, None)
    cx = cxof(*inputs)
    if name == 'matmul' and method == '__call__':
        r = matmul(*inputs)
    elif name == 'conjugate':
        r = scalarize(conj(inputs[0]))
    elif method == '__call__':
        objs = [asobj(x) for x in inputs]
        if name in NATIVE:
            r = ufunc(*[_aso0(o) for o in objs])
            kind = 'p'
        elif name in UF:
            f, kind = UF[name]
            r = f(*[_aso0(o) for o in objs])
        else:
            cs = [const(x) for x in inputs]
            if builtins.any(c is None for c in cs):
                raise Unsupported('ufunc %s' % name)
            return ufunc(*cs, **kw)
        k = False if kind == 'r' else cx
        if kind == 'b':
            r = boolres(r)
        else:
            r = rewrap(r, k)
    elif method in ('reduce', 'accumulate') and name in ('add', 'multiply', 'maximum', 'minimum', 'logical_and', 'logical_or'):
        a = lift(inputs[0])
        kw = {k: v for k, v in kw.items() if k in ('axis', 'keepdims')}
        f = ufunc if name in NATIVE else UF[name][0]
        if len(inputs) > 1 and inputs[1] is not None: kw['axis'] = inputs[1]
        if method == 'reduce':
            ax = kw.get('axis', 0)
            if ax is None:
                r = getattr(f, method)(o_(a).reshape(-1))
            elif isinstance(ax, tuple):
                r = o_(a)
                for x in sorted([y % a.ndim for y in ax], reverse=True):
                    r = f.reduce(r, axis=x)
            else:
                r = f.reduce(o_(a), **kw)
        else:
            r = f.accumulate(o_(a), **kw)
        r = boolres(r) if name.startswith('logical') else rewrap(r, cx)
    elif method == 'outer':
        a, b = [asobj(lift(x)) for x in inputs]
        f = ufunc if name in NATIVE else UF[name][0]
        r = rewrap(f.outer(a, b), cx)
    else:
        raise Unsupported('ufunc %s.%s' % (name, method))
    if out is not None:
        tgt = out[0] if isinstance(out, tuple) else out
        if isinstance(tgt, SymArray):
            if tgt._cx is False and cxof(r):
                raise np.core._exceptions._UFuncOutputCastingError(ufunc, 'same_kind', np.dtype(complex), np.dtype(float), 0)
            nd.__setitem__(tgt, Ellipsis, asobj(r) if isinstance(r, np.ndarray) else r)
            return tgt
        if isinstance(tgt, np.ndarray):
            c = const(r)
            if c is None: raise Unsupported('in-place update of a numeric array with symbolic values')
            tgt[...] = c
            return tgt
    return r

def _aso0(o):
    if isinstance(o, (Sym, SymBool)):      # keep numpy from calling back into our ufunc hook
        r = _real_empty((), object); r[()] = o
        return r
    return o

def boolres(r):
    if isinstance(r, np.ndarray):
        if builtins.all(isinstance(e, (bool, np.bool_)) for e in r.reshape(-1)):
            return r.astype(bool)
        return wrap(r, None)
    return r

# ------------------------------------------------------------ contractions
def mm2(A, B):
    """object (n,k) @ (k,m)"""
    n, k = A.shape
    m = B.shape[1]
    Al = A.tolist(); Bl = B.T.tolist()
    symA = [[isinstance(x, Sym) for x in r] for r in Al]
    symB = [[isinstance(x, Sym) for x in r] for r in Bl]
    R = _real_empty((n, m), object)
    acc = poly.acc
    for i in range(n):
        Ai, sAi = Al[i], symA[i]
        nzi = [l for l in range(k) if sAi[l] or Ai[l] != 0]
        for j in range(m):
            Bj, sBj = Bl[j], symB[j]
            out = {}
            num = 0.0
            cx = False
            for l in nzi:
                a = Ai[l]; b = Bj[l]
                if sAi[l]:
                    if sBj[l]:
                        fma(out, a.t, b.t); cx = cx or a.cx or b.cx
                    elif b != 0:
                        for mo, c in a.t.items(): acc(out, mo, c * b)
                        cx = cx or a.cx or isinstance(b, complex)
                elif sBj[l]:
                    for mo, c in b.t.items(): acc(out, mo, c * a)
                    cx = cx or b.cx or isinstance(a, complex)
                else:
                    num = num + a * b
            if out:
                if num != 0:
                    acc(out, (), num)
                    cx = cx or isinstance(num, complex)
                R[i, j] = mk(out, cx)
            else:
                R[i, j] = num
    return R

def mm(A, B):
    """2-d product of object arrays with float fast path"""
    if A.size == 0 or B.size == 0:
        R = _real_empty((A.shape[0], B.shape[1]), object); R[...] = 0.0
        return R
    return mm2(A, B)

def tensordot(a, b, axes=2):
    a, b = lift(a), lift(b)
    cx = bool(a._cx) or bool(b._cx)
    try:
        iter(axes)
    except Exception:
        axes_a = list(range(-axes, 0)); axes_b = list(range(0, axes))
    else:
        axes_a, axes_b = axes
    try: axes_a = list(axes_a)
    except TypeError: axes_a = [axes_a]
    try: axes_b = list(axes_b)
    except TypeError: axes_b = [axes_b]
    as_, bs = a.shape, b.shape
    if len(axes_a) != len(axes_b): raise ValueError('shape-mismatch for sum')
    na, nb = a.ndim, b.ndim
    axes_a = [x + na if x < 0 else x for x in axes_a]
    axes_b = [x + nb if x < 0 else x for x in axes_b]
    for x, y in zip(axes_a, axes_b):
        if as_[x] != bs[y]: raise ValueError('shape-mismatch for sum')
    fa = [k for k in range(na) if k not in axes_a]
    fb = [k for k in range(nb) if k not in axes_b]
    K = int(np.prod([as_[x] for x in axes_a])) if axes_a else 1
    A = o_(a).transpose(fa + axes_a).reshape(-1, K) if K else o_(a).transpose(fa + axes_a).reshape(int(np.prod([as_[x] for x in fa])), 0)
    B = o_(b).transpose(axes_b + fb).reshape(K, -1) if K else o_(b).transpose(axes_b + fb).reshape(0, int(np.prod([bs[x] for x in fb])))
    R = mm(A, B).reshape([as_[x] for x in fa] + [bs[x] for x in fb])
    return wrap(R, cx)

def dot(a, b, out=None):
    a, b = lift(a), lift(b)
    if a.ndim == 0 or b.ndim == 0:
        return np.multiply(a, b)
    if a.ndim == 1 and b.ndim == 1:
        return scalarize(tensordot(a, b, [[0], [0]]))
    if b.ndim == 1:
        return tensordot(a, b, [[a.ndim - 1], [0]])
    return tensordot(a, b, [[a.ndim - 1], [b.ndim - 2]])

def matmul(a, b, out=None):
    a, b = lift(a), lift(b)
    cx = bool(a._cx) or bool(b._cx)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    A, B = o_(a), o_(b)
    v1 = A.ndim == 1; v2 = B.ndim == 1
    if v1: A = A[None, :]
    if v2: B = B[:, None]
    if A.shape[-1] != B.shape[-2]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0, with gufunc signature (n?,k),(k,m?)->(n?,m?) (size %d is different from %d)' % (B.shape[-2], A.shape[-1]))
    bs = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A2 = np.broadcast_to(A, bs + A.shape[-2:]); B2 = np.broadcast_to(B, bs + B.shape[-2:])
    R = _real_empty(bs + (A.shape[-2], B.shape[-1]), object)
    for ix in np.ndindex(*bs):
        R[ix] = mm(A2[ix], B2[ix])
    if v1: R = R[..., 0, :]
    if v2: R = R[..., 0]
    return scalarize(wrap(_aso(R, ()), cx))

def parse_einsum(args):
    if isinstance(args[0], str):
        s = args[0].replace(' ', '')
        ops = list(args[1:])
        if '...' in s: raise Unsupported('einsum ellipsis')
        if '->' in s:
            lhs, rhs = s.split('->')
            rhs = list(rhs)
        else:
            lhs, rhs = s, None
        ins = [list(x) for x in lhs.split(',')]
    else:
        args = list(args)
        ops, ins = [], []
        while len(args) >= 2:
            ops.append(args.pop(0)); ins.append(list(args.pop(0)))
        rhs = list(args.pop(0)) if args else None
        if builtins.any(Ellipsis in i for i in ins): raise Unsupported('einsum ellipsis')
    if rhs is None:
        flat = [x for i in ins for x in i]
        rhs = sorted([x for x in set(flat) if flat.count(x) == 1])
    return ops, ins, rhs

def einsum(*args, optimize=None, **kw):
    ops, ins, rhs = parse_einsum(args)
    ops = [lift(x) for x in ops]
    cx = builtins.any(bool(x._cx) for x in ops)
    dims = {}
    cur = []
    for x, i in zip(ops, ins):
        if x.ndim != len(i):
            raise ValueError('einstein sum subscripts string contains wrong number of subscripts for operand')
        for s, n in zip(i, x.shape):
            if s in dims and dims[s] != n and dims[s] != 1 and n != 1:
                raise ValueError('operands could not be broadcast together with remapped shapes')
            if dims.get(s, 1) != n and 1 in (dims.get(s, n), n): raise Unsupported('einsum broadcast')
            dims[s] = n
        o, i = o_(x), list(i)
        # diagonals
        while len(set(i)) < len(i):
            for s in i:
                if i.count(s) > 1:
                    p = i.index(s); q = i.index(s, p + 1)
                    o = np.diagonal(o, axis1=p, axis2=q)
                    i = [t for k, t in enumerate(i) if k not in (p, q)] + [s]
                    break
        cur.append((o, i))
    while len(cur) > 1:
        # contract the pair sharing the most indices
        best = None
        for p in range(len(cur)):
            for q in range(p + 1, len(cur)):
                sh = set(cur[p][1]) & set(cur[q][1])
                sz = int(np.prod([dims[s] for s in set(cur[p][1]) | set(cur[q][1])]))
                key = (0 if sh else 1, sz)
                if best is None or key < best[0]: best = (key, p, q)
        _, p, q = best
        (A, ia), (B, ib) = cur[p], cur[q]
        rest = [c for k, c in enumerate(cur) if k not in (p, q)]
        need = set(rhs) | {s for _, i in rest for s in i}
        A, ia = sum_out(A, ia, need | set(ib))
        B, ib = sum_out(B, ib, need | set(ia))
        batch = [s for s in ia if s in ib and s in need]
        con = [s for s in ia if s in ib and s not in need]
        la = [s for s in ia if s not in ib]; lb = [s for s in ib if s not in ia]
        A = A.transpose([ia.index(s) for s in batch + la + con])
        B = B.transpose([ib.index(s) for s in batch + con + lb])
        d = lambda l: int(np.prod([dims[s] for s in l])) if l else 1
        A = A.reshape(d(batch), d(la), d(con)); B = B.reshape(d(batch), d(con), d(lb))
        R = _real_empty((d(batch), d(la), d(lb)), object)
        for k in range(d(batch)):
            R[k] = mm(A[k], B[k])
        R = R.reshape([dims[s] for s in batch + la + lb])
        cur = rest + [(R, batch + la + lb)]
    A, ia = cur[0]
    A, ia = sum_out(A, ia, set(rhs))
    A = A.transpose([ia.index(s) for s in rhs])
    return scalarize(wrap(_aso(A, ()), cx))

def sum_out(A, ia, need):
    for s in list(ia):
        if s not in need:
            k = ia.index(s)
            A = np.add.reduce(A, axis=k)
            if not isinstance(A, np.ndarray):
                o = _real_empty((), object); o[()] = A; A = o
            ia = ia[:k] + ia[k + 1:]
    return A, ia

# ------------------------------------------------------------ numpy functions
H = {}
def handles(*fs):
    def deco(f):
        for g in fs:
            if g is not None: H[g] = f
        return f
    return deco

H[np.tensordot] = tensordot
H[np.dot] = dot
H[np.matmul] = matmul
H[np.einsum] = einsum
H[np.real] = real
H[np.imag] = imag

def all_(a, axis=None, **k):
    if axis is not None: raise Unsupported('all(axis)')
    a = lift(a)
    return land([tb(e) for e in o_(a).reshape(-1)])
def any_(a, axis=None, **k):
    if axis is not None: raise Unsupported('any(axis)')
    a = lift(a)
    return lor([tb(e) for e in o_(a).reshape(-1)])
H[np.all] = all_
H[np.any] = any_

def close1(a, b, rtol=1e-5, atol=1e-8):
    d = a - b
    if isnum(d) and isnum(a) and isnum(b):
        return builtins.bool(np.isclose(a, b, rtol, atol))
    if isnum(d) and abs(d) <= atol: return True
    if isnum(d) and abs(d) > 1e-3: return False
    if atol > 1e-6 and (isnum(b) or rtol <= 1e-4):      # a coarse tolerance is meant as one
        t = float(atol) + float(rtol) * (abs(b) if isnum(b) else 0)
        if not isnum(d): return SymBool('ge', t * t - d * np.conj(d))
    return SymBool('eq', d)     # "close" is modelled as equality
_close = np.frompyfunc(close1, 2, 1)

@handles(np.isclose)
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np.frompyfunc(lambda x, y: close1(x, y, rtol, atol), 2, 1)(asobj(lift(a)), asobj(lift(b)))
    return boolres(r)

@handles(np.allclose)
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    if isinstance(r, np.ndarray):
        return all_(r) if isinstance(r, SymArray) else builtins.bool(r.all())
    return r

@handles(np.array_equal)
def array_equal(a, b, **k):
    a, b = lift(a), lift(b)
    if a.shape != b.shape: return False
    return all_(lift(np.equal(a, b)))

@handles(np.iscomplexobj)
def iscomplexobj(x): return bool(lift(x)._cx)
@handles(np.isrealobj)
def isrealobj(x): return not lift(x)._cx
@handles(np.iscomplex)
def iscomplex(x): return np.imag(lift(x)) != 0
@handles(np.isreal)
def isreal(x): return np.imag(lift(x)) == 0
@handles(np.real_if_close)
def real_if_close(a, tol=100):
    a = lift(a)
    if not a._cx: return a
    im = imag(a)
    if const(im) is not None:
        return real(a) if np.all(np.absolute(const(im)) < tol * 2.3e-16) else a
    return a    # generic inputs: imaginary part not negligible
@handles(np.angle)
def angle(z, deg=False):
    c = const(lift(z))
    if c is None: raise Unsupported('angle')
    return np.angle(c, deg)
@handles(np.count_nonzero)
def count_nonzero(a, axis=None, **k):
    if axis is not None: raise Unsupported('count_nonzero(axis)')
    return builtins.sum(1 for e in o_(lift(a)).reshape(-1) if (nonzero1(e)))
def nonzero1(e):
    if isinstance(e, SymBool): return builtins.bool(e)
    if isnum(e): return e != 0
    return builtins.bool(e != 0)
@handles(np.nonzero)
def nonzero(a):
    a = lift(a)
    m = _real_empty(a.shape, bool)
    o = o_(a)
    for i in np.ndindex(a.shape): m[i] = nonzero1(o[i])
    return np.nonzero(m)
@handles(np.where)
def where(c, *ab):
    if not ab: return nonzero(c)
    a, b = ab
    c = lift(c)
    m = decide_mask(c) if const(c) is None or c._cx is None else const(c).astype(bool)
    a, b = lift(a), lift(b)
    r = np.where(m, o_(a), o_(b))
    return wrap(r, bool(a._cx) or bool(b._cx))
@handles(np.copy)
def copy(a, order='K', subok=False): return lift(a).copy()
@handles(np.diag)
def diag(v, k=0):
    v = lift(v)
    o = o_(v)
    if v.ndim == 1:
        n = v.shape[0] + builtins.abs(k)
        R = _real_empty((n, n), object); R[...] = 0.0
        for i in range(v.shape[0]):
            R[(i, i + k) if k >= 0 else (i - k, i)] = o[i]
        return wrap(R, v._cx)
    return wrap(np.diagonal(o, k), v._cx)
@handles(np.sum)
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    a = lift(a)
    if isinstance(axis, tuple):
        r = o_(a)
        for x in sorted([y % a.ndim for y in axis], reverse=True): r = np.add.reduce(r, axis=x)
        return rewrap(r, a._cx)
    return a.sum(axis, keepdims=keepdims)
@handles(np.mean)
def mean(a, axis=None, **k): return lift(a).mean(axis)
@handles(np.var)
def var(a, axis=None, **k):
    if set(k) - {'ddof'}: raise Unsupported('var options')
    a = lift(a); d = a - (a.mean(axis) if axis is None else np.expand_dims(a.mean(axis), axis))
    n = a.size if axis is None else a.shape[axis]
    return np.real(d * np.conj(d)).sum(axis) / (n - k.get('ddof', 0))
@handles(np.std)
def std(a, axis=None, **k): return np.sqrt(var(a, axis, **k))
@handles(np.prod)
def prod(a, axis=None, **k): return lift(a).prod(axis)
@handles(np.cumsum)
def cumsum(a, axis=None, **k):
    a = lift(a)
    return wrap(np.add.accumulate(o_(a).reshape(-1) if axis is None else o_(a), axis=axis or 0), a._cx)
@handles(np.round, np.around)
def round_(a, decimals=0, **k):
    c = const(lift(a))
    if c is None: raise Unsupported('round')
    return np.round(c, decimals)
@handles(np.max, np.amax)
def max_(a, axis=None, **k):
    a = lift(a); c = const(a)
    if c is not None: return np.max(c, axis)
    if axis is not None: return wrap(UF['maximum'][0].reduce(o_(a), axis=axis), a._cx)
    return UF['maximum'][0].reduce(o_(a).reshape(-1))
@handles(np.min, np.amin)
def min_(a, axis=None, **k):
    a = lift(a); c = const(a)
    if c is not None: return np.min(c, axis)
    return UF['minimum'][0].reduce(o_(a).reshape(-1))
@handles(np.zeros_like)
def zeros_like(a, dtype=None, **k): return _fill(a, 0.0, dtype)
@handles(np.ones_like)
def ones_like(a, dtype=None, **k): return _fill(a, 1.0, dtype)
@handles(np.full_like)
def full_like(a, v, dtype=None, **k): return _fill(a, v, dtype)
@handles(np.empty_like)
def empty_like(a, dtype=None, **k):
    a = lift(a)
    return uninit(a.shape, a.dtype if dtype is None else dtype)
def _fill(a, v, dtype):
    a = lift(a)
    cx = a._cx if dtype is None else np.dtype(dtype).kind == 'c'
    o = _real_empty(a.shape, object); o[...] = complex(v) if (cx and isnum(v)) else v
    return wrap(o, cx)
@handles(np.kron)
def kron(a, b):
    a, b = lift(a), lift(b)
    cx = bool(a._cx) or bool(b._cx)
    n = max(a.ndim, b.ndim)
    A = o_(a).reshape((1,) * (n - a.ndim) + a.shape); B = o_(b).reshape((1,) * (n - b.ndim) + b.shape)
    R = np.multiply.outer(A, B)
    R = R.transpose([x for k in range(n) for x in (k, n + k)]).reshape([A.shape[k] * B.shape[k] for k in range(n)])
    return wrap(R, cx)
@handles(np.outer)
def outer(a, b, out=None):
    a, b = lift(a), lift(b)
    return wrap(np.multiply.outer(o_(a).reshape(-1), o_(b).reshape(-1)), bool(a._cx) or bool(b._cx))
@handles(np.block)
def block(arrays):
    def rec(x, depth):
        if isinstance(x, list):
            parts = [rec(e, depth + 1) for e in x]
            return parts
        return lift(x)
    def depth(x): return 1 + depth(x[0]) if isinstance(x, list) else 0
    D = depth(arrays)
    def build(x, level):
        if not isinstance(x, list):
            l = lift(x)
            return wrap(o_(l).reshape((1,) * max(0, D - l.ndim) + l.shape), l._cx)
        return np.concatenate([build(e, level + 1) for e in x], axis=-(D - level))
    return build(arrays, 0)
@handles(np.shape)
def shape(a): return lift(a).shape
@handles(np.ndim)
def ndim(a): return lift(a).ndim
@handles(np.size)
def size(a, axis=None): return lift(a).size if axis is None else lift(a).shape[axis]
@handles(np.vdot)
def vdot(a, b): return dot(conj(lift(a)).reshape(-1), lift(b).reshape(-1))
@handles(np.inner)
def inner(a, b):
    a, b = lift(a), lift(b)
    if a.ndim == 0 or b.ndim == 0: return np.multiply(a, b)
    return scalarize(tensordot(a, b, [[-1], [-1]]))
@handles(np.trace)
def trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    return lift(a).trace(offset, axis1, axis2)
@handles(np.argmax)
def argmax(a, axis=None, **k):
    c = const(lift(a))
    if c is None: raise Unsupported('argmax of symbolic values')
    return np.argmax(c, axis)
@handles(np.argsort)
def argsort(a, axis=-1, **k):
    c = const(lift(a))
    if c is None:
        raise Unsupported('argsort of symbolic values')
    return np.argsort(c, axis, **k)
@handles(np.sort)
def sort(a, axis=-1, **k):
    c = const(lift(a))
    if c is None: raise Unsupported('sort of symbolic values')
    return np.sort(c, axis)
@handles(np.save)
def save(file, arr, **k):
    from . import env
    return env.vfs_save(file, arr)
@handles(np.linalg.multi_dot)
def multi_dot(arrays, **k):
    r = arrays[0]
    for x in arrays[1:]: r = dot(r, x)
    return r
@handles(np.linalg.matrix_power)
def matrix_power(a, n):
    a = lift(a)
    r = lift(np.eye(a.shape[0]))
    for _ in range(n): r = matmul(r, a)
    return r

def unwrap_deep(x):
    if isinstance(x, SymArray): return o_(x)
    if isinstance(x, Sym): return o_(lift(x))
    if isinstance(x, list): return [unwrap_deep(e) for e in x]
    if isinstance(x, tuple): return tuple(unwrap_deep(e) for e in x)
    if isinstance(x, dict): return {k: unwrap_deep(v) for k, v in x.items()}
    if isinstance(x, np.ndarray) and x.dtype.kind in 'fc': return x.astype(object)
    return x

DEFAULT_OK = {f for n in '''transpose swapaxes reshape concatenate stack vstack hstack dstack squeeze expand_dims
    split array_split ravel moveaxis rollaxis pad tile repeat flip fliplr flipud roll diagonal tril triu insert delete
    append take broadcast_to atleast_1d atleast_2d atleast_3d rot90 result_type column_stack hsplit vsplit
    may_share_memory shares_memory compress resize diff diag_indices_from fill_diagonal copyto put cross
    common_type ix_ broadcast_arrays array_repr array_str array2string can_cast extract place unique vander
    convolve trim_zeros apply_along_axis cumprod linspace'''.split() for f in [getattr(np, n, None)] if f is not None}

def array_function(func, types, args, kwargs):
    h = H.get(func)
    if h is not None:
        return h(*args, **kwargs)
    from . import stubs
    h = stubs.H.get(func)
    if h is not None:
        return h(*args, **kwargs)
    if func is np.result_type or func is np.common_type:
        return np.dtype(complex) if cxof(*args) else np.dtype(float)
    if func not in DEFAULT_OK:
        cs = try_const(args); ck = {k: try_const1(v) for k, v in kwargs.items()}
        if cs is not None and builtins.all(v is not FAIL for v in ck.values()):
            return func(*cs, **ck)
        raise Unsupported('numpy function %s on symbolic data' % getattr(func, '__name__', func))
    cx = cxof(*args) or cxof(*kwargs.values())
    r = func(*[unwrap_deep(a) for a in args], **{k: unwrap_deep(v) for k, v in kwargs.items()})
    if func in (np.fill_diagonal, np.copyto, np.put, np.place): return r
    return rewrap_deep(r, cx)

def rewrap_deep(r, cx):
    if isinstance(r, (list, tuple)): return type(r)(rewrap_deep(x, cx) for x in r)
    if isinstance(r, np.ndarray) and r.dtype == object: return wrap(r, cx)
    if isinstance(r, np.ndarray) or isinstance(r, (bool, str)): return r
    return rewrap(r, cx)

FAIL = object()
def try_const1(x):
    if isinstance(x, (list, tuple)):
        l = [try_const1(e) for e in x]
        return FAIL if builtins.any(e is FAIL for e in l) else type(x)(l)
    if isinstance(x, (SymArray, Sym, SymBool)):
        c = const(x)
        return FAIL if c is None else c
    return x
def try_const(args):
    l = [try_const1(a) for a in args]
    return None if builtins.any(e is FAIL for e in l) else l

# ------------------------------------------------------------ creators (patched into numpy for xmps callers)
def uninit(shape, dtype=float):
    dt = np.dtype(float if dtype is None else dtype)
    if dt.kind not in 'fc': return _real_empty(shape, dt)
    o = _real_empty(shape, object)
    for i in np.ndindex(o.shape):
        o[i] = poly.fresh('uninit%d' % len(poly.ST.gens), 'c' if dt.kind == 'c' else 'r', role='junk')
    return wrap(o, dt.kind == 'c')

def symbolic_numeric(a):
    """numeric ndarray -> SymArray when it is floating, else unchanged"""
    if isinstance(a, SymArray): return a
    if isinstance(a, np.ndarray) and a.dtype.kind in 'fc':
        return lift(a)
    return a
