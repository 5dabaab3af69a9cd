"""Abstract meaning of Python builtins, numpy, scipy and scikit-learn calls."""
import string as _string
from .terms import *
from .terms import _bind, solve_eq, Facts, TooComplex
from .values import *
from .values import UnkBody
from .interp import ind_to_cond, seg_at

TYPES = {}
TYPES_EXT = {}


def _t(name, *bases):
    t = TypeV(name, [TYPES[b] for b in bases] or ([TYPES['object']] if name != 'object' else []))
    TYPES[name] = t
    return t


_t('object')
for _n in ('type', 'int', 'float', 'str', 'list', 'tuple', 'dict', 'set', 'frozenset', 'slice',
           'NoneType', 'function', 'range', 'complex', 'bytes', 'property', 'generator', 'module',
           'ABC', 'Iterable', 'Sequence', 'Mapping', 'Sized', 'Callable', 'Number', 'Integral', 'Real',
           'Hashable', 'Iterator', 'Collection', 'Container', 'MutableSequence',
           'ellipsis', 'staticmethod', 'classmethod', 'super', 'method', 'dtype'):
    _t(_n)
_t('bool', 'int')
_t('BaseException')
_t('Exception', 'BaseException')
_t('KeyboardInterrupt', 'BaseException')
_t('SystemExit', 'BaseException')
_t('GeneratorExit', 'BaseException')
for _n in ('ArithmeticError', 'AssertionError', 'AttributeError', 'BufferError', 'EOFError',
           'ImportError', 'LookupError', 'MemoryError', 'NameError', 'OSError', 'ReferenceError',
           'RuntimeError', 'StopIteration', 'SyntaxError', 'SystemError', 'TypeError', 'ValueError', 'Warning'):
    _t(_n, 'Exception')
for _n, _b in (('FloatingPointError', 'ArithmeticError'), ('OverflowError', 'ArithmeticError'),
               ('ZeroDivisionError', 'ArithmeticError'), ('ModuleNotFoundError', 'ImportError'),
               ('IndexError', 'LookupError'), ('KeyError', 'LookupError'),
               ('UnboundLocalError', 'NameError'), ('NotImplementedError', 'RuntimeError'),
               ('RecursionError', 'RuntimeError'), ('UnicodeError', 'ValueError'),
               ('FileNotFoundError', 'OSError'), ('PermissionError', 'OSError'),
               ('UserWarning', 'Warning'), ('DeprecationWarning', 'Warning'), ('RuntimeWarning', 'Warning'),
               ('FutureWarning', 'Warning'), ('SyntaxWarning', 'Warning'), ('ImportWarning', 'Warning'),
               ('PendingDeprecationWarning', 'Warning'), ('ResourceWarning', 'Warning'),
               ('UnicodeWarning', 'Warning'), ('BytesWarning', 'Warning')):
    _t(_n, _b)
TYPES['IOError'] = TYPES['EnvironmentError'] = TYPES['OSError']


def _e(name, *bases):
    bs = [TYPES.get(b) or TYPES_EXT[b] for b in bases] or [TYPES['object']]
    t = TypeV(name, bs)
    TYPES_EXT[name] = t
    return t


_e('numpy.ndarray')
_e('numpy.matrix', 'numpy.ndarray')
_e('numpy.generic')
_e('numpy.dtype')
_e('numpy.random.RandomState')
_e('scipy.sparse.spmatrix')
_e('scipy.sparse.lil_matrix', 'scipy.sparse.spmatrix')
_e('numpy.linalg.LinAlgError', 'ValueError')
TYPES_EXT['scipy.linalg.LinAlgError'] = TYPES_EXT['numpy.linalg.LinAlgError']
_e('numpy.exceptions.ComplexWarning', 'RuntimeWarning')
_e('sklearn.exceptions.NotFittedError', 'ValueError', 'AttributeError')
_e('importlib.metadata.PackageNotFoundError', 'ModuleNotFoundError')
_e('subprocess.CalledProcessError', 'Exception')
_e('sklearn.base.BaseEstimator')
_e('sklearn.base.ClassifierMixin')
_e('sklearn.base.RegressorMixin')
_e('sklearn.base.TransformerMixin')
_e('sklearn.svm._base.BaseLibSVM', 'sklearn.base.BaseEstimator')
_e('sklearn.svm._base.BaseSVC', 'sklearn.base.ClassifierMixin', 'sklearn.svm._base.BaseLibSVM')
_e('sklearn.svm.SVC', 'sklearn.svm._base.BaseSVC')
_e('sklearn.svm.SVR', 'sklearn.base.RegressorMixin', 'sklearn.svm._base.BaseLibSVM')
_e('sklearn.model_selection.GridSearchCV', 'sklearn.base.BaseEstimator')
TYPES_EXT['abc.ABC'] = TYPES['ABC']
for _n in ('Iterable', 'Sequence', 'Mapping', 'Sized', 'Callable', 'Hashable', 'Iterator', 'Collection',
           'Container', 'MutableSequence'):
    TYPES_EXT['collections.abc.' + _n] = TYPES[_n]
    TYPES_EXT['typing.' + _n] = TYPES[_n]
for _n in ('Number', 'Integral', 'Real'):
    TYPES_EXT['numbers.' + _n] = TYPES[_n]
TYPES_EXT['functools.partial'] = TypeV('functools.partial', (TYPES['object'],))

SVC_PARAMS = [('C', 1.0), ('kernel', 'rbf'), ('degree', 3), ('gamma', 'scale'), ('coef0', 0.0),
              ('shrinking', True), ('probability', False), ('tol', 1e-3), ('cache_size', 200),
              ('class_weight', None), ('verbose', False), ('max_iter', -1),
              ('decision_function_shape', 'ovr'), ('break_ties', False), ('random_state', None)]
SVR_PARAMS = [('kernel', 'rbf'), ('degree', 3), ('gamma', 'scale'), ('coef0', 0.0), ('tol', 1e-3),
              ('C', 1.0), ('epsilon', 0.1), ('shrinking', True), ('cache_size', 200),
              ('verbose', False), ('max_iter', -1)]
GS_PARAMS = [('estimator', None), ('param_grid', None), ('scoring', None), ('n_jobs', None), ('refit', True),
             ('cv', None), ('verbose', 0), ('pre_dispatch', '2*n_jobs'), ('error_score', 'nan'),
             ('return_train_score', False)]
EXT_INIT = {'sklearn.svm.SVC': SVC_PARAMS, 'sklearn.svm.SVR': SVR_PARAMS,
            'sklearn.model_selection.GridSearchCV': GS_PARAMS}


def T(n):
    return TYPES.get(n) or TYPES_EXT[n]


def const(v):
    return Sc(P(v), 'float') if isinstance(v, float) else v


# ------------------------------------------------------------------ scalars
def isnum(v):
    return isinstance(v, (int, Sc, Bo))


def poly(v):
    if isinstance(v, (bool, int)):
        return P(int(v))
    if isinstance(v, Sc):
        return v.p
    if isinstance(v, Bo):
        return ind(v.c)
    if isinstance(v, Arr) and v.ndim == 0:
        return nbody(v)
    raise TypeError('no poly for %r' % (v,))


def tyof(v):
    if isinstance(v, bool) or isinstance(v, Bo):
        return 'int'
    if isinstance(v, int):
        return 'int'
    return v.ty


def isintty(t):
    return t in ('int', 'npint')


def mkS(p, ty='float'):
    c = p.const()
    if c is not None and isintty(ty) and c.denominator == 1 and ty == 'int':
        return int(c)
    return Sc(p, ty)


def boolv(c, np=False):
    if isinstance(c, bool):
        return c
    return Bo(c, np)


def joinkeys(*vs):
    return tuple(vkey(v) for v in vs)


def cond_of(ip, v):
    """Condition for truthiness of a scalar element."""
    if isinstance(v, bool):
        return v
    if isinstance(v, Bo):
        return v.c
    if isinstance(v, (int, Sc)):
        return mk_not(mk_eq(poly(v)))
    if isinstance(v, Unk):
        raise UnkBody(v.why)
    return ip.truth(v)


# ------------------------------------------------------------------ dtype
DT_PARENT = {'float64': 'floating', 'float32': 'floating', 'float16': 'floating', 'longdouble': 'floating',
             'floating': 'inexact', 'complex128': 'complexfloating', 'complex64': 'complexfloating',
             'complexfloating': 'inexact', 'inexact': 'number', 'int64': 'signedinteger',
             'int32': 'signedinteger', 'int16': 'signedinteger', 'int8': 'signedinteger',
             'uint8': 'unsignedinteger', 'uint16': 'unsignedinteger', 'uint32': 'unsignedinteger', 'uint64': 'unsignedinteger',
             'unsignedinteger': 'integer', 'signedinteger': 'integer', 'integer': 'number', 'number': 'generic',
             'bool': 'generic', 'str_': 'character', 'bytes_': 'character', 'character': 'flexible',
             'flexible': 'generic', 'object': 'generic', 'datetime64': 'generic', 'generic': None}
DT_ALIAS = {'int_': 'int64', 'intp': 'int64', 'int': 'int64', 'float': 'float64', 'f8': 'float64',
            'i8': 'int64', 'float_': 'float64', 'double': 'float64', 'bool_': 'bool', 'object_': 'object',
            'unicode_': 'str_', 'str': 'str_', 'U': 'str_', 'f4': 'float32', 'single': 'float32', 'd': 'float64',
            '<f8': 'float64', 'i4': 'int32', 'O': 'object', 'f': 'float32', 'complex': 'complex128',
            'i': 'int32', 'cfloat': 'complex128', 'b1': 'bool', '?': 'bool', 'longlong': 'int64', 'long': 'int64',
            'uint': 'uint64', 'half': 'float16', 'float': 'float64'}
ABSTRACT_DT = {'number', 'integer', 'floating', 'inexact', 'complexfloating', 'signedinteger',
               'unsignedinteger', 'generic', 'character', 'flexible'}


def dtname(ip, x):
    """dtype class name or None."""
    if isinstance(x, Dt):
        return x.name
    if isinstance(x, str):
        n = DT_ALIAS.get(x, x)
        return n if n in DT_PARENT else None
    if isinstance(x, Ext) and x.name.startswith('numpy.'):
        n = x.name[6:]
        n = DT_ALIAS.get(n, n)
        return n if n in DT_PARENT else None
    if isinstance(x, TypeV):
        return {'int': 'int64', 'float': 'float64', 'bool': 'bool', 'str': 'str_', 'complex': 'complex128',
                'bytes': 'bytes_', 'numpy.generic': 'generic'}.get(
                    x.name, x.name[6:] if x.name.startswith('numpy.') and x.name[6:] in DT_PARENT else 'object')
    return None


def mkdtype(ip, x):
    if isinstance(x, Dt):
        return x
    if x is None:
        return F8
    n = dtname(ip, x)
    if n is None:
        if isinstance(x, (Unk, Opq, StrV)):
            return None
        ip.throw('TypeError', 'data type not understood')
    if n in ABSTRACT_DT:
        if n == 'generic':
            return Dt('object')
        if n in ('character', 'flexible'):
            return STR
        ip.throw('TypeError', 'Converting abstract scalar type to dtype')
    return Dt(n)


def issubdt(a, b):
    while a is not None:
        if a == b:
            return True
        a = DT_PARENT.get(a)
    return False


ORDER = ['bool', 'int8', 'int16', 'int32', 'int64', 'float16', 'float32', 'float64', 'complex128']


NARROW = {'int8': 8, 'int16': 16, 'int32': 32, 'uint8': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64}


def promote(*names):
    if 'object' in names:
        return 'object'
    if 'str_' in names:
        return 'str_'
    if any(n in NARROW for n in names):
        ns = [n for n in dict.fromkeys(names) if n != 'bool']
        if len(ns) == 1:
            return ns[0]
        if all(n in NARROW or n == 'int64' for n in ns):
            un = [NARROW[n] for n in ns if n[0] == 'u']
            si = [NARROW.get(n, 64) for n in ns if n[0] == 'i']
            if not si:
                return 'uint%d' % max(un)
            w = max(si + [2 * u for u in un])
            return 'int%d' % w if w <= 64 else 'float64'
    try:
        return max(names, key=ORDER.index)
    except ValueError:
        return 'float64'


def scalar_dt(v):
    if isinstance(v, (bool, Bo)):
        return 'bool'
    if isinstance(v, int):
        return 'int64'
    if isinstance(v, Sc):
        return 'int64' if isintty(v.ty) else ('complex128' if v.ty == 'complex' else 'float64')
    if isinstance(v, (str, StrV)):
        return 'str_'
    return 'object'


def cast_body(ip, body, src, dst):
    """Cast numeric body between dtypes."""
    s, d = src.name, dst.name
    if s == d or isinstance(body, Unk):
        return body
    if s == 'bool' and d != 'bool' and not isinstance(body, Poly):
        body = ind(body)
    if d == 'bool':
        return body if not isinstance(body, Poly) else mk_not(mk_eq(body))
    if d.startswith('int') or d.startswith('uint'):
        if s.startswith('int') or s == 'bool' or is_int(body):
            return body
        if src.bad:
            ip.throw(src.bad, 'could not convert')
        return fn('trunc', body)
    if d in ('float32', 'float16'):
        return fn(d, body)
    if d == 'float64':
        if src.bad:
            ip.throw(src.bad, 'could not convert to float')
        if s == 'complex128':
            return fn('real', body)
        return body
    if d == 'str_' and s != 'str_':
        return fn('str', body)
    return body


# ------------------------------------------------------------------ arrays
def facts_eq(ip, a, b):
    if a == b:
        return True
    return ip.known(mk_eq(a - b))


def bcast(ip, shapes):
    """Broadcast shapes; returns result shape."""
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        cur = None
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            x = s[j]
            if cur is None or cur.const() == 1:
                cur = x
            elif x.const() == 1 or x == cur:
                continue
            else:
                if ip.decide(mk_eq(x - cur)):
                    if x.const() is not None:
                        cur = x
                    continue
                if ip.decide(mk_eq(cur - ONE)):
                    cur = x
                    continue
                if ip.decide(mk_eq(x - ONE)):
                    continue
                ip.throw('ValueError', 'operands could not be broadcast together')
        out.append(cur)
    return tuple(out)


def bmap(a, shape):
    """Map of result indices onto the indices of a (broadcast)."""
    off = len(shape) - a.ndim
    return {('i', k): (I(k + off) if a.shape[k].const() != 1 or shape[k + off].const() == 1 else ZERO)
            for k in range(a.ndim)}


def sameidx(mp):
    return all(v == A(k) for k, v in mp.items())


def same_shape(ip, a, b):
    return len(a) == len(b) and all(x == y or ip.known(mk_eq(x - y)) is True
                                    for x, y in zip(a, b))


def elem(ip, f, vals, dt, cond=False):
    """Elementwise f over arrays/scalars. f gets Polys; returns Poly/cond."""
    regs = [v for v in vals if isinstance(v, RegArr)]
    if regs:
        r0 = regs[0]
        args = []
        for v in vals:
            if isinstance(v, RegArr):
                if v.cond != r0.cond or not same_shape(ip, v.shape, r0.shape):
                    return ip.unk('fancy-indexed arrays of different selections')
                args.append(v.body)
            elif isinstance(v, Arr):
                return ip.unk('mixing selected and plain arrays')
            else:
                args.append(poly(v))
        return RegArr(r0.shape, r0.cond, f(*args), dt)
    arrs = [v for v in vals if isinstance(v, Arr)]
    shape = bcast(ip, [a.shape for a in arrs])
    args = []
    for v in vals:
        if isinstance(v, Arr):
            mp = bmap(v, shape)
            b = nbody(v)
            args.append(b if sameidx(mp) else subst(b, mp))
        else:
            args.append(poly(v))
    fm = 'nd'
    if any(a.fmt == 'matrix' for a in arrs):
        fm = 'matrix'
    if all(a.fmt == 'lil' for a in arrs):
        fm = 'lil'
    r = Arr(shape, pointwise(f, args, shape), dt, fm)
    ravs = [a.rav for a in arrs if a.ndim == 1]
    if ravs and all(x is not None for x in ravs) and len(ravs) == len(arrs) and \
            len({x[0] for x in ravs}) == 1:
        it = iter(ravs)
        a2 = []
        for v in vals:
            if isinstance(v, Arr):
                b = next(it)[1]
                a2.append(b if isinstance(b, Poly) else ind(b))
            else:
                a2.append(poly(v))
        r.rav = (ravs[0][0], f(*a2))
    return r


def pointwise(f, args, shape):
    if any(isinstance(p, Poly) and len(p.t) > 1 and any(a[0] == 'ind' for m, _ in p.t for a, _e in m) for p in args):
        pts = points(shape)
        if pts is not None:
            tab = []
            for pt in pts:
                mp = {('i', k): P(x) for k, x in enumerate(pt)}
                tab.append((pt, f(*[subst(p, mp) for p in args])))
            if all(isinstance(v, Poly) for _, v in tab):
                return from_table(tab)
            if not any(isinstance(v, Poly) or isinstance(v, Unk) for _, v in tab):
                return mk_or(*[mk_and(v, *[mk_eq(I(k) - P(x)) for k, x in enumerate(pt)]) for pt, v in tab])
    return f(*args)


def anyarr(*vs):
    return any(isinstance(v, (Arr, RegArr)) for v in vs)


def num_dt(v):
    if isinstance(v, (Arr, RegArr)):
        return v.dt.name
    return scalar_dt(v)


def map1(ip, f, v, ty='npfloat', dt=None, cond=False):
    """Elementwise unary function on scalar/array."""
    v = as_arrayish(ip, v)
    if isinstance(v, Unk):
        return v
    if isinstance(v, (Arr, RegArr)):
        if v.dt.name in ('str_',) or v.dt.bad:
            ip.throw('TypeError', 'ufunc not supported for the input types')
        return elem(ip, f, [v], dt or Dt(promote(v.dt.name, 'float64') if dt is None else dt.name))
    if isnum(v):
        r = f(poly(v))
        if isinstance(r, Poly):
            return Sc(r, ty)
        return boolv(r, True)
    if v is None or isinstance(v, (str, StrV)):
        ip.throw('TypeError', 'ufunc not supported for the input types')
    return ip.unk('math on %s' % type(v).__name__)


def as_arrayish(ip, v):
    """Lists/tuples given to numpy functions become arrays."""
    if isinstance(v, (PList, tuple)):
        return to_array(ip, v)
    if isinstance(v, TriIdx):
        return tri_arr(ip, v)
    if isinstance(v, Obj) and v.info and v.info[0] == 'exc':
        return ip.unk('exception as array')
    return v


def tri_arr(ip, t):
    return ip.unk('triangular index array as numbers')


def reduce_axes(ip, a, axis):
    """list of axes."""
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, tuple):
        return [x % a.ndim if isinstance(x, int) else 0 for x in axis]
    if isinstance(axis, int):
        if axis >= a.ndim or axis < -a.ndim:
            ip.throw('ValueError', 'axis out of bounds')
        return [axis % a.ndim]
    return None


def red(ip, a, axis, keep, comb):
    """Reduce array over axes with comb(vars, body)->Poly/cond."""
    axes = reduce_axes(ip, a, axis)
    if axes is None:
        return ip.unk('axis')
    b = body_of(a)
    if isinstance(b, Unk):
        raise UnkBody(b.why)
    if a.rav is not None and a.ndim == 1:
        his, rb = a.rav
        qs = [fresh_q() for _ in his]
        body = bsub(rb, {('i', k): A(q) for k, q in enumerate(qs)})
        return (), comb(list(zip(qs, his)), body)
    vs = []
    mp = {}
    shape = []
    j = 0
    for k in range(a.ndim):
        if k in axes:
            q = fresh_q()
            vs.append((q, a.shape[k]))
            mp[('i', k)] = A(q)
            if keep:
                shape.append(ONE)
                j += 1
        else:
            mp[('i', k)] = I(j)
            shape.append(a.shape[k])
            j += 1
    return tuple(shape), comb(vs, bsub(b, mp))


def finish(ip, shape, r, dt, ty):
    if shape == ():
        if isinstance(r, Poly):
            return Sc(r, ty)
        return boolv(r, True)
    return Arr(shape, r, dt)


def np_sum(ip, a, axis=None, keep=False, **kw):
    a = as_arrayish(ip, a)
    if isinstance(a, RegArr):
        qs = [fresh_q() for _ in a.shape]
        mp = {('i', k): A(q) for k, q in enumerate(qs)}
        b = a.body if isinstance(a.body, Poly) else ind(a.body)
        return Sc(mk_sum(list(zip(qs, a.shape)), subst(ind(a.cond) * b, mp)), 'npfloat')
    if isnum(a):
        return a
    if not isinstance(a, Arr):
        return ip.unk('sum of %s' % type(a).__name__)
    if a.dt.name == 'str_':
        ip.throw('TypeError', 'cannot sum strings')
    intr = a.dt.name in ('bool', 'int64')
    shape, r = red(ip, a, axis, keep, lambda vs, b: mk_sum(vs, b if isinstance(b, Poly) else ind(b)))
    return finish(ip, shape, r, I8 if intr else a.dt, 'npint' if intr else 'npfloat')


def np_prod(ip, a, axis=None, keep=False):
    a = as_arrayish(ip, a)
    if isnum(a):
        return a
    if not isinstance(a, Arr):
        return ip.unk('prod')
    n = a.shape[0].const() if a.ndim == 1 else None
    if n is not None and axis in (None, 0) and not keep:
        b = nbody(a)
        r = ONE
        for k in range(int(n)):
            r = r * subst(b, {('i', 0): P(k)})
        return Sc(r, 'npint' if a.dt.name == 'int64' else 'npfloat')
    shape, r = red(ip, a, axis, keep, lambda vs, b: mk_prod(vs, b if isinstance(b, Poly) else ind(b)))
    return finish(ip, shape, r, a.dt, 'npfloat')


def np_any(ip, a, axis=None, keep=False):
    a = as_arrayish(ip, a)
    if isinstance(a, RegArr):
        qs = [fresh_q() for _ in a.shape]
        mp = {('i', k): A(q) for k, q in enumerate(qs)}
        c = a.body if not isinstance(a.body, Poly) else mk_not(mk_eq(a.body))
        return boolv(mk_any(list(zip(qs, a.shape)), csub(mk_and(a.cond, c), mp)), True)
    if isinstance(a, Arr):
        shape, r = red(ip, a, axis, keep,
                       lambda vs, b: mk_any(vs, b if not isinstance(b, Poly) else mk_not(mk_eq(b))))
        return finish(ip, shape, r, B1, 'bool')
    if isnum(a):
        return boolv(cond_of(ip, a), True)
    return ip.unk('any')


def np_all(ip, a, axis=None, keep=False):
    a = as_arrayish(ip, a)
    if isinstance(a, RegArr):
        c = a.body if not isinstance(a.body, Poly) else mk_not(mk_eq(a.body))
        n = RegArr(a.shape, a.cond, mk_not(c), B1)
        r = np_any(ip, n)
        return (not r) if isinstance(r, bool) else Bo(mk_not(r.c), True)
    if isinstance(a, Arr):
        shape, r = red(ip, a, axis, keep,
                       lambda vs, b: mk_all(vs, b if not isinstance(b, Poly) else mk_not(mk_eq(b))))
        return finish(ip, shape, r, B1, 'bool')
    if isnum(a):
        return boolv(cond_of(ip, a), True)
    return ip.unk('all')


def minmax(ip, a, name, axis=None, keep=False):
    a = as_arrayish(ip, a)
    if isnum(a):
        return a
    if not isinstance(a, Arr):
        return ip.unk(name)
    if a.ndim == 1 and a.shape[0].const() is not None and a.shape[0].const() <= 12 and axis in (None, 0):
        b = nbody(a)
        n = int(a.shape[0].const())
        if n == 0:
            ip.throw('ValueError', 'zero-size array to reduction operation')
        return Sc(fn(name, *[subst(b, {('i', 0): P(k)}) for k in range(n)]), 'npfloat')

    def comb(vs, b):
        if not isinstance(b, Poly):
            b = ind(b)
        if not depends(b, {q for q, _ in vs}):
            return b
        return A(('fn', name + 'over', (A(_bind('bnd', vs, b)),)))
    shape, r = red(ip, a, axis, keep, comb)
    return finish(ip, shape, r, a.dt, 'npint' if a.dt.name == 'int64' else 'npfloat')


def np_arg(ip, a, name, axis=None):
    a = as_arrayish(ip, a)
    if not isinstance(a, Arr) or (axis is not None and a.ndim > 1):
        return ip.unk(name)
    n = ONE
    for x in a.shape:
        n = n * x
    qs = [fresh_q() for _ in a.shape]
    b = subst(nbody(a), {('i', k): A(q) for k, q in enumerate(qs)})
    if a.rav is not None:
        return ip.unk(name)
    if isinstance(b, Poly) and not depends(b, set(qs)) and name in ('argmax', 'argmin'):
        return Sc(ZERO, 'npint')
    at = A(('fn', name, (A(_bind('bnd', list(zip(qs, a.shape)), b)),)))
    try:
        ip.assume(mk_le(-at))
        ip.assume(mk_lt(at - n))
    except Exception:
        pass
    return Sc(at, 'npint')


def to_array(ip, v, dt=None, copy=False):
    """np.array(v)."""
    if isinstance(v, Arr):
        if dt is not None and dt != v.dt:
            return Arr(v.shape, cast_body(ip, body_of(v), v.dt, dt), dt, 'nd', rav=None)
        if copy or v.fmt != 'nd':
            r = Arr(v.shape, body_of(v), v.dt, 'nd' if v.fmt != 'lil' else 'lil')
            r.rav = v.rav
            return r
        return v
    if isinstance(v, RegArr):
        return v
    if isinstance(v, (bool, int, Sc, Bo)):
        d = dt or Dt(scalar_dt(v))
        b = v if isinstance(v, bool) else v.c if isinstance(v, Bo) else poly(v)
        if isinstance(v, (bool, Bo)) and d.name != 'bool':
            b = ind(b)
        return Arr((), cast_body(ip, b, Dt(scalar_dt(v)), d), d)
    if isinstance(v, tuple):
        v = PList(v)
    if isinstance(v, PList):
        return list_to_array(ip, v, dt)
    if isinstance(v, (PDict, SliceV)) or v is None or isinstance(v, (str, StrV)):
        d = STR if isinstance(v, (str, StrV)) else Dt('object', 'TypeError' if v is not None else None)
        if v is None:
            return Arr((), fn("nan"), dt or d)
        if dt is not None and dt.name in ('int64', 'float64'):
            ip.throw('ValueError' if d is STR else 'TypeError', 'invalid literal')
        return Arr((), A(('opq', vkey(v))), d)
    if isinstance(v, Obj):
        l = ip.lookup(v.cls, '__len__')
        gi = ip.lookup(v.cls, '__getitem__')
        ar = ip.lookup(v.cls, '__array__')
        if ar is not None:
            return ip.call(Bound(ar, v), [])
        if l is not None and gi is not None:
            return ip.unk('np.array of a sequence-like object')
        return Arr((), A(('opq', vkey(v))), Dt('object', 'TypeError'))
    if isinstance(v, Opq):
        return Arr((), A(('opq', v.key)), Dt('object'))
    if isinstance(v, Unk):
        return v
    return ip.unk('np.array of %s' % type(v).__name__)


def list_to_array(ip, l, dt):
    segs = l.segs
    if l.kind == 'gen' or l.kind == 'set':
        return Arr((), A(('opq', vkey(l))), Dt('object', 'TypeError'))
    if any(isinstance(g, AccSeg) for g in segs):
        return ip.unk('array of accumulating list')
    if not segs:
        return Arr((0,), ZERO, dt or F8)
    if len(segs) == 1 and len(segs[0].vars) > 1:
        g = segs[0]
        e, d, sub = elem_info(ip, g.val)
        if e is None:
            return ip.unk('array elements')
        dd = dt or d
        if g.cond is not True or sub != ():
            return ip.unk('array of conditional product')
        mp = {q: I(k) for k, (q, _) in enumerate(g.vars)}
        his = tuple(h for _, h in g.vars)
        if any(free(h) & set(mp) for h in his):
            return ip.unk('ragged')
        b = bsub(cast_body(ip, e, d, dd), mp)
        n = ONE
        for h in his:
            n = n * h
        if len(his) == 2:
            f = fn('floor', I(0) / his[1])
            flat = bsub(b, {('i', 0): f, ('i', 1): I(0) - his[1] * f})
        else:
            flat = Unk('flattened product')
        return Arr((n,), flat, dd, rav=(his, b))
    if len(segs) == 1 and segs[0].vars and segs[0].cond is not True:
        g = segs[0]
        e, d, sub = elem_info(ip, g.val)
        if e is None or sub != ():
            return ip.unk('array of conditional list')
        q, h = g.vars[0]
        mp = {q: I(0)}
        return RegArr((h,), csub(g.cond, mp), bsub(e, mp), dt or d)
    # general: concatenation of segments along axis 0
    off = ZERO
    parts = []
    names = []
    sub0 = None
    bad = None
    for g in segs:
        if g.cond is not True:
            return ip.unk('array of conditional list')
        e, d, sub = elem_info(ip, g.val)
        if e is None:
            return ip.unk('array elements: %s' % (type(g.val).__name__,))
        if sub0 is None:
            sub0 = sub
        elif sub0 != sub:
            if len(sub0) != len(sub) or any(facts_eq(ip, x, y) is not True for x, y in zip(sub0, sub)):
                if len(sub0) == len(sub) and any(facts_eq(ip, x, y) is None for x, y in zip(sub0, sub)):
                    return ip.unk('possibly ragged list')
                ip.throw('ValueError', 'inhomogeneous shape')
        names.append(d.name)
        bad = bad or d.bad
        if g.vars:
            q, h = g.vars[0]
            parts.append((off, h, e, q))
            off = off + h
        else:
            parts.append((off, ONE, e, None))
            off = off + ONE
    d = Dt(promote(*names), bad)
    dd = dt or d
    nd = len(sub0)
    shift = {('i', k): I(k + 1) for k in range(nd)}
    body = None
    for (o, h, e, q) in reversed(parts):
        e = bsub(e, shift)
        if q is not None:
            e = bsub(e, {q: I(0) - o})
        if isinstance(e, Unk):
            return Arr((off,) + sub0, e, dd)
        if body is None:
            body = e
        else:
            if isinstance(e, Poly) and not isinstance(body, Poly):
                body = ind(body)
            if isinstance(body, Poly):
                body = ite(mk_lt(I(0) - o - h), e if isinstance(e, Poly) else ind(e), body)
            else:
                c = mk_lt(I(0) - o - h)
                body = mk_or(mk_and(c, e), mk_and(mk_not(c), body))
    if isinstance(body, Poly) and d.name == 'bool':
        body = mk_not(mk_eq(body))
    return Arr((off,) + sub0, cast_body(ip, body, d, dd), dd)


def elem_info(ip, v):
    """(body, dtype, subshape) of one array element."""
    if isinstance(v, (bool,)):
        return v, B1, ()
    if isinstance(v, Bo):
        return v.c, B1, ()
    if isinstance(v, (int, Sc)):
        return poly(v), Dt(scalar_dt(v)), ()
    if isinstance(v, Arr):
        b = body_of(v)
        return (b, v.dt, v.shape)
    if isinstance(v, (PList, tuple)):
        a = to_array(ip, v)
        if isinstance(a, Arr):
            return body_of(a), a.dt, a.shape
        return None, None, None
    if isinstance(v, str):
        return A(('opq', vkey(v))), Dt('str_', None if numeric_text(v) else 'ValueError'), ()
    if isinstance(v, StrV):
        return A(('opq', vkey(v))), STR, ()
    if v is None:
        return fn("nan"), Dt('object'), ()
    if isinstance(v, (Opq, Obj)):
        return A(('opq', vkey(v))), Dt('object', None), ()
    return None, None, None


def numeric_text(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def norm_index(ip, e, n):
    """Normalise an integer index against dimension n."""
    e = poly(e)
    c = e.const()
    if c is not None:
        if c < 0:
            e = e + n
            if ip.known(mk_lt(e)) is True:
                ip.throw('IndexError', 'index out of bounds')
            return e
        if ip.known(mk_le(n - e)) is True:
            ip.throw('IndexError', 'index out of bounds')
        if ip.known(mk_lt(e - n)) is None:
            ip.assume(mk_lt(e - n)) if _feas(ip, mk_lt(e - n)) else ip.throw('IndexError', 'index out of bounds')
        return e
    if ip.known(mk_lt(e)) is True:
        e = e + n
        if ip.known(mk_lt(e)) is True:
            ip.throw('IndexError', 'index out of bounds')
        return e
    if ip.known(mk_le(n - e)) is True:
        ip.throw('IndexError', 'index out of bounds')
    return e


def _feas(ip, c):
    return ip.facts.copy().add(c, True)


def slice_info(ip, s, n):
    """(start, length, step) of slice s on a dimension of size n."""
    step = s.step
    if step is not None and not isinstance(step, int):
        return None
    step = 1 if step is None else step
    if step == -1:
        if s.lo is None and s.hi is None:
            return n - ONE, n, -1
        return None
    if step != 1:
        if s.lo in (None, 0) and s.hi is None and step > 0:
            return ZERO, fn('floor', (n + P(step - 1)) / P(step)), step
        return None

    def clip(x, default):
        if x is None:
            return default
        if not isnum(x):
            ip.throw('TypeError', 'slice indices must be integers')
        p = poly(x)
        if ip.known(mk_lt(p)) is True or (p.const() is not None and p.const() < 0):
            p = p + n
            if ip.known(mk_lt(p)) is not False and p.const() is None:
                if ip.decide(mk_lt(p)):
                    return ZERO
            return p
        if ip.decide(mk_le(p - n)):
            return p
        return n
    lo, hi = clip(s.lo, ZERO), clip(s.hi, n)
    ln = hi - lo
    if ip.known(mk_le(-ln)) is not True:
        if ip.decide(mk_lt(ln)):
            return lo, ZERO, 1
    return lo, ln, 1


def is_intlike(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, Sc) and isintty(v.ty))


def arr_getitem(ip, a, idx):
    if isinstance(idx, PList) and idx.kind == 'tuple':
        idx = tuple(idx.concrete() or ())
    items = list(idx) if isinstance(idx, tuple) else [idx]
    if a.fmt == 'matrix' or a.fmt == 'lil':
        pass
    # boolean mask
    if len(items) == 1 and isinstance(items[0], Arr) and items[0].dt.name == 'bool':
        m = items[0]
        if m.ndim == a.ndim:
            return RegArr(a.shape, cbody(m), body_of(a), a.dt)
        return ip.unk('partial mask')
    if any(isinstance(x, (bool,)) for x in items):
        return ip.unk('bool index')
    # triangular pair
    if len(items) == 2 and all(isinstance(x, TriIdx) for x in items):
        c = tri_cond(items)
        if c is None:
            return ip.unk('index pair')
        return RegArr(a.shape, c, body_of(a), a.dt)
    # ellipsis
    if any(isinstance(x, Ext) and x.name == 'builtins.Ellipsis' for x in items):
        k = [i for i, x in enumerate(items) if isinstance(x, Ext)][0]
        n_other = len([x for x in items if x is not None]) - 1
        items = items[:k] + [SliceV(None, None, None)] * (a.ndim - n_other) + items[k + 1:]
    real = [x for x in items if x is not None and not (isinstance(x, Ext) and x.name == 'numpy.newaxis')]
    if len(real) > a.ndim:
        ip.throw('IndexError', 'too many indices for array')
    items = items + [SliceV(None, None, None)] * (a.ndim - len(real))
    # gather with integer sequences
    gath = [(k, x) for k, x in enumerate(items) if isinstance(x, (PList, Arr, RegArr, tuple))]
    if gath:
        return gather(ip, a, items, gath)
    vmap, shape = [], []
    dim = 0
    for x in items:
        if x is None or isinstance(x, Ext):
            shape.append(ONE)
            continue
        n = a.shape[dim]
        if is_intlike(x):
            vmap.append(norm_index(ip, x, n))
        elif isinstance(x, SliceV):
            si = slice_info(ip, x, n)
            if si is None:
                return ip.unk('slice')
            st, ln, step = si
            vmap.append(st + P(step) * I(len(shape)))
            shape.append(ln)
        elif isinstance(x, (Unk, Opq)):
            return ip.unk('array index')
        else:
            ip.throw('IndexError', 'only integers, slices ... are valid indices')
        dim += 1
    if a.fmt == 'matrix' and len(shape) == 1:
        return ip.unk('matrix row')
    if not shape:
        b = body_of(a)
        if isinstance(b, Unk):
            return b
        e = bsub(b, {('i', k): v for k, v in enumerate(vmap)})
        return elem_value(ip, e, a.dt)
    # eigenvalue arrays etc keep structure
    return Arr(tuple(shape), None, a.dt, a.fmt, a.owner, base=a, vmap=tuple(vmap))


def elem_value(ip, e, dt):
    if not isinstance(e, Poly):
        return boolv(e, True)
    s = e.single_atom()
    if dt.name in ('str_', 'object') and s is not None and s[0] in ('opq', 'idx'):
        return Opq(s, None) if dt.name == 'object' else StrV(s)
    return Sc(e, 'npint' if dt.name.startswith('int') else 'npfloat')


def seqval(ip, x):
    """Integer sequence as (length, function of index poly)."""
    if isinstance(x, tuple):
        x = PList(x)
    if isinstance(x, PList):
        x = to_array(ip, PList(segs=x.segs))
    if isinstance(x, Arr) and x.ndim == 1 and x.dt.name != 'bool':
        b = nbody(x)
        return x.shape[0], (lambda e: subst(b, {('i', 0): e}))
    return None


def gather(ip, a, items, gath):
    if any(x is None for x in items):
        return ip.unk('gather with newaxis')
    b = body_of(a)
    if isinstance(b, Unk):
        return b
    if len(gath) == 1:
        k0, x = gath[0]
        sv = seqval(ip, x)
        if sv is None:
            return ip.unk('index array')
        mp, shape = {}, []
        for k, y in enumerate(items):
            if k == k0:
                mp[('i', k)] = sv[1](I(len(shape)))
                shape.append(sv[0])
            elif is_intlike(y):
                mp[('i', k)] = norm_index(ip, y, a.shape[k])
            elif isinstance(y, SliceV):
                si = slice_info(ip, y, a.shape[k])
                if si is None:
                    return ip.unk('slice')
                mp[('i', k)] = si[0] + P(si[2]) * I(len(shape))
                shape.append(si[1])
            else:
                return ip.unk('index')
        return Arr(shape, bsub(b, mp), a.dt)
    if len(gath) == 2 and len(items) == 2:
        x, y = gath[0][1], gath[1][1]
        # np.ix_ style: (n,1) and (1,m)
        if isinstance(x, Arr) and isinstance(y, Arr) and x.ndim == 2 and y.ndim == 2:
            shape = bcast(ip, [x.shape, y.shape])
            mp = {('i', 0): subst(nbody(x), bmap(x, shape)), ('i', 1): subst(nbody(y), bmap(y, shape))}
            return Arr(shape, bsub(b, mp), a.dt)
        sx, sy = seqval(ip, x), seqval(ip, y)
        if sx and sy:
            if not ip.decide(mk_eq(sx[0] - sy[0])):
                ip.throw('IndexError', 'shape mismatch')
            return Arr((sx[0],), bsub(b, {('i', 0): sx[1](I(0)), ('i', 1): sy[1](I(0))}), a.dt)
    return ip.unk('fancy index')


def tri_cond(items):
    x, y = items
    if x.uid != y.uid:
        return None
    if (x.k, y.k) == (0, 1):
        return x.cond
    if (x.k, y.k) == (1, 0):
        return csub(x.cond, {('i', 0): I(1), ('i', 1): I(0)})
    return None


def owner_check(ip, a, what='array'):
    o = a.root().owner if isinstance(a, Arr) else getattr(a, 'owner', None)
    if o is not None:
        ip.event('owner-write', o, what)


def arr_write(ip, a, cond, val):
    """Write val (Poly over a's placeholders) where cond holds."""
    if a.base is not None:
        inv = invert(a, ip)
        if inv is None:
            owner_check(ip, a)
            ip.put(a.root(), 'c', (Unk('write through a view'), ()))
            return
        mp, guard = inv
        arr_write(ip, a.base, mk_and(csub(cond, mp) if not isinstance(cond, bool) else cond, guard), bsub(val, mp))
        return
    owner_check(ip, a)
    if not isinstance(val, Unk):
        if isinstance(val, Poly) and a.dt.name.startswith('int') and not is_int(val):
            val = fn('trunc', val)
        if a.dt.name == 'float32' and isinstance(val, Poly):
            val = fn('float32', val)
        if a.dt.name == 'bool' and isinstance(val, Poly):
            val = mk_not(mk_eq(val))
        if a.dt.name != 'bool' and not isinstance(val, Poly):
            val = ind(val)
    b, ws = a.s['c']
    if cond is True:
        ip.put(a, 'c', (val, ()))
    elif cond is False:
        return
    else:
        ip.put(a, 'c', (b, ws + ((cond, val),)))
    if a.rav is not None:
        a.rav = None


def invert(v, ip):
    """Mapping of view indices to base indices: returns (mp for view ('i',k) in
    terms of base ('i',j), guard condition on base indices)."""
    mp = {}
    guard = True
    for j, e in enumerate(v.vmap):
        fr = [x for x in free(e) if x[0] == 'i']
        if not fr:
            guard = mk_and(guard, mk_eq(I(j) - e))
            continue
        if len(fr) > 1:
            return None
        k = fr[0]
        # e = s*k + c ; use a temporary for base index
        t = ('q', -1 - j)
        sol = solve_eq(e - A(t), k)
        if sol is None:
            return None
        x = subst(sol, {t: I(j)})
        if k in mp:
            return None
        mp[k] = x
        ln = v.shape[k[1]]
        guard = mk_and(guard, mk_le(-x), mk_lt(x - ln))
    for k in range(v.ndim):
        if ('i', k) not in mp:
            if v.shape[k].const() == 1:
                mp[('i', k)] = ZERO
            else:
                return None
    # drop guards implied by the shape of the base
    f = ip.facts.copy()
    for j, n in enumerate(v.base.shape):
        f.add(mk_le(-I(j)), True)
        f.add(mk_lt(I(j) - n), True)
    if guard is not True and guard is not False:
        ls = guard[1] if guard[0] == 'and' else [guard]
        guard = mk_and(*[l for l in ls if f.decide(l) is not True])
    return mp, guard


def arr_write_all(ip, a, v):
    if isinstance(v, Arr):
        shape = a.shape
        mp = bmap(v, shape)
        arr_write(ip, a, True, bsub(body_of(v), mp))
    elif isnum(v):
        arr_write(ip, a, True, poly(v))
    else:
        arr_write(ip, a, True, Unk('write of %s' % type(v).__name__))


def arr_setitem(ip, a, idx, v):
    items = list(idx) if isinstance(idx, tuple) else [idx]
    v = as_arrayish(ip, v)
    if isinstance(v, Opq):
        v = Sc(A(('opq', v.key)), 'float')
    if len(items) == 1 and isinstance(items[0], Arr) and items[0].dt.name == 'bool':
        c = cbody(items[0])
        return region_write(ip, a, c, v)
    if len(items) == 2 and all(isinstance(x, TriIdx) for x in items):
        c = tri_cond(items)
        if c is None:
            return arr_write(ip, a, True, Unk('index pair'))
        return region_write(ip, a, c, v)
    if any(isinstance(x, Ext) and x.name == 'builtins.Ellipsis' for x in items):
        k = [i for i, x in enumerate(items) if isinstance(x, Ext)][0]
        items = items[:k] + [SliceV(None, None, None)] * (a.ndim - len(items) + 1) + items[k + 1:]
    if len(items) > a.ndim:
        ip.throw('IndexError', 'too many indices for array')
    items = items + [SliceV(None, None, None)] * (a.ndim - len(items))
    gath = [(k, x) for k, x in enumerate(items) if isinstance(x, (PList, Arr))]
    if gath:
        if len(gath) == 2 and len(items) == 2:
            # diagonal-like writes a[r, r] with r = arange
            sx, sy = seqval(ip, gath[0][1]), seqval(ip, gath[1][1])
            if sx and sy:
                q = fresh_q()
                ex, ey = sx[1](A(q)), sy[1](A(q))
                sol = solve_eq(ex - I(0), q)
                if sol is not None:
                    c = mk_and(mk_eq(subst(ey, {q: sol}) - I(1)), mk_le(-sol), mk_lt(sol - sx[0]))
                    if isnum(v):
                        return arr_write(ip, a, c, poly(v))
                    if isinstance(v, Arr) and v.ndim == 1:
                        return arr_write(ip, a, c, subst(nbody(v), {('i', 0): sol}))
        return arr_write(ip, a, True, Unk('fancy write'))
    cond = True
    pos = []
    for k, x in enumerate(items):
        n = a.shape[k]
        if is_intlike(x):
            cond = mk_and(cond, mk_eq(I(k) - norm_index(ip, x, n)))
        elif isinstance(x, SliceV):
            si = slice_info(ip, x, n)
            if si is None or si[2] != 1:
                return arr_write(ip, a, True, Unk('strided write'))
            st, ln, _ = si
            if not (st.is_zero()):
                cond = mk_and(cond, mk_le(st - I(k)))
            if ln != n:
                cond = mk_and(cond, mk_lt(I(k) - st - ln))
            pos.append((k, st, ln))
        elif isinstance(x, (Unk, Opq)):
            return arr_write(ip, a, True, Unk('array index'))
        else:
            ip.throw('IndexError', 'only integers, slices ... are valid indices')
    if isnum(v):
        return arr_write(ip, a, cond, poly(v))
    if isinstance(v, Arr):
        vs = [ln for _, _, ln in pos]
        off = len(vs) - v.ndim
        if off < 0:
            if all(x.const() == 1 for x in v.shape[:-off]):
                off0 = -off
                mp = {('i', k): ZERO for k in range(off0)}
                for k in range(off0, v.ndim):
                    kk, st, ln = pos[k - off0]
                    mp[('i', k)] = I(kk) - st
                return arr_write(ip, a, cond, bsub(body_of(v), mp))
            ip.throw('ValueError', 'could not broadcast')
        mp = {}
        for k in range(v.ndim):
            kk, st, ln = pos[k + off]
            if v.shape[k].const() == 1 and ln.const() != 1:
                mp[('i', k)] = ZERO
            else:
                if not ip.decide(mk_eq(v.shape[k] - ln)):
                    ip.throw('ValueError', 'could not broadcast input array')
                mp[('i', k)] = I(kk) - st
        return arr_write(ip, a, cond, bsub(body_of(v), mp))
    if v is None:
        return arr_write(ip, a, cond, NAN)
    arr_write(ip, a, cond, Unk('write of %s' % type(v).__name__))


def region_write(ip, a, c, v):
    if isnum(v):
        return arr_write(ip, a, c, poly(v))
    if isinstance(v, RegArr):
        if v.cond == c:
            return arr_write(ip, a, c, v.body)
        # x[tri] = y[tri^T] orderings do not correspond element by element
        return arr_write(ip, a, True, Unk('region write with another selection'))
    arr_write(ip, a, True, Unk('region write'))


# ------------------------------------------------------------------ getitem/setitem
def getitem(ip, o, i):
    if isinstance(o, Arr):
        return arr_getitem(ip, o, i)
    if isinstance(o, (tuple, PList)):
        return list_getitem(ip, o, i)
    if isinstance(o, PDict):
        v = dict_get(ip, o, i)
        if v is MISSING:
            ip.throw('KeyError', i if isinstance(i, str) else 'key')
        return v
    if isinstance(o, GlobalsV):
        if not isinstance(i, str):
            return ip.unk('globals()')
        if i not in o.mod.s:
            ip.throw('KeyError', i)
        return o.mod.s[i]
    if isinstance(o, Obj):
        f = ip.lookup(o.cls, '__getitem__')
        if f is not None:
            return ip.call(Bound(f, o), [i])
        r = obj_getitem(ip, o, i)
        if r is not MISSING:
            return r
        ip.throw('TypeError', "'%s' object is not subscriptable" % o.cls.name)
    if isinstance(o, str):
        if isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                ip.throw('IndexError', 'string index out of range')
        if isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
            return o[slice(i.lo, i.hi, i.step)]
        return ip.unk('string index')
    if isinstance(o, Unk):
        return o
    if isinstance(o, TriIdx):
        return ip.unk('element of index array')
    if isinstance(o, RegArr):
        if len(o.shape) == 1 and is_intlike(i) and o.cond is True:
            return elem_value(ip, bsub(o.body, {('i', 0): poly(i)}), o.dt)
        return ip.unk('element of selected array')
    if isinstance(o, Opq):
        if o.ty is None:
            return Opq(('item', o.key, vkey(i)), None)
        return Opq(('item', o.key, vkey(i)), None)
    if isinstance(o, StrV):
        return StrV(('item', o.key, vkey(i)))
    if isinstance(o, Ext):
        if o.name == 'numpy.ix_':
            return ip.unk('ix_')
        return ip.unk('subscript of %s' % o.name)
    if isinstance(o, TypeV):
        return o          # list[int] etc
    if o is None or isnum(o):
        ip.throw('TypeError', 'object is not subscriptable')
    return ip.unk('subscript')


def list_getitem(ip, o, i):
    if isinstance(i, SliceV):
        items = list(o) if isinstance(o, tuple) else o.concrete()
        if items is not None:
            try:
                ix = [x if x is None else int(poly(x).const()) for x in (i.lo, i.hi, i.step)]
                r = items[slice(*ix)]
                return tuple(r) if isinstance(o, tuple) else PList(r)
            except (TypeError, AttributeError):
                return ip.unk('slice of list')
        if isinstance(o, PList) and i.lo is None and i.hi is None and i.step in (None, 1):
            return PList(segs=o.segs)
        if isinstance(o, PList) and len(o.segs) == 1 and o.segs[0].cond is True and len(o.segs[0].vars) == 1 \
                and not isinstance(o.segs[0], AccSeg):
            g = o.segs[0]
            q, h = g.vars[0]
            si = slice_info(ip, i, h)
            if si is not None:
                r = fresh_q()
                return PList(segs=[Seg([(r, si[1])], True, vsub(g.val, {q: si[0] + P(si[2]) * A(r)}))])
        return ip.unk('slice of list')
    if isinstance(o, PList) and o.kind in ('set', 'gen'):
        ip.throw('TypeError', "'%s' object is not subscriptable" % o.kind)
    if isinstance(i, Bo) or isinstance(i, bool):
        i = mkS(poly(i), 'int')
    if isinstance(i, Unk):
        return ip.unk('list index')
    if isinstance(i, Arr) and i.ndim == 0 and i.dt.name.startswith('int'):
        i = Sc(nbody(i), 'npint')
    if not is_intlike(i):
        if isinstance(i, Opq):
            return ip.unk('list index')
        ip.throw('TypeError', 'list indices must be integers or slices')
    if isinstance(o, tuple):
        items = list(o)
        segs = None
    else:
        segs = o.segs
        if any(isinstance(g, AccSeg) for g in segs):
            return ip.unk('index into accumulating list')
        items = o.concrete()
    p = poly(i)
    c = p.const()
    if items is not None:
        if c is not None:
            try:
                return items[int(c)]
            except IndexError:
                ip.throw('IndexError', 'list index out of range')
        n = len(items)
        if n == 0:
            ip.throw('IndexError', 'list index out of range')
        inside = ip.known(mk_le(-p)) is True and ip.known(mk_lt(p - P(n))) is True
        for k in range(n):
            if k == n - 1 and inside:
                if ip.known(mk_eq(p - P(k))) is None:
                    ip.assume(mk_eq(p - P(k)))
                return items[k]
            if ip.decide(mk_eq(p - P(k))):
                return items[k]
        for k in range(1, n + 1):
            if ip.known(mk_lt(p)) is not False and ip.decide(mk_eq(p + P(k))):
                return items[-k]
        ip.throw('IndexError', 'list index out of range')
    # symbolic
    ln = seglen(segs)
    if c is not None and c < 0:
        p = p + ln
    elif c is None and ip.known(mk_lt(p)) is True:
        p = p + ln
    if not ip.decide(mk_lt(p - ln)) or ip.known(mk_lt(p)) is True:
        ip.throw('IndexError', 'list index out of range')
    off = ZERO
    from .interp import seg_at
    for k, g in enumerate(segs):
        if g.cond is not True:
            return ip.unk('index into filtered list')
        if not g.vars:
            if ip.decide(mk_eq(p - off)):
                return g.val
            off = off + ONE
            continue
        if len(g.vars) > 1:
            return ip.unk('index into product list')
        q, h = g.vars[0]
        if k == len(segs) - 1 or ip.decide(mk_lt(p - off - h)):
            return seg_at(g, {q: p - off})
        off = off + h
    return ip.unk('list index')


def seglen(segs):
    n = ZERO
    for g in segs:
        if isinstance(g, AccSeg):
            n = n + A(('acc', g.slot[1], ('len',)))
            continue
        if not g.vars:
            n = n + ind(g.cond)
        else:
            n = n + mk_sum(list(g.vars), ind(g.cond))
    return n


def length(ip, v):
    """len() as Poly."""
    if isinstance(v, (tuple, str)):
        return P(len(v))
    if isinstance(v, PList):
        if v.kind == 'set':
            c = v.concrete()
            if c is not None:
                return P(len(c))
        return seglen(v.segs)
    if isinstance(v, PDict):
        n = ZERO
        for e in v.ents:
            if e.weak or e.vars:
                return A(('opq', ('int', 'dictlen', vkey(v))))
            n = n + ind(e.cond)
        return n
    if isinstance(v, Arr):
        if v.ndim == 0:
            ip.throw('TypeError', 'len() of unsized object')
        return v.shape[0]
    if isinstance(v, RegArr):
        qs = [fresh_q() for _ in v.shape]
        return mk_sum(list(zip(qs, v.shape)), ind(csub(v.cond, {('i', k): A(q) for k, q in enumerate(qs)})
                                                  if not isinstance(v.cond, bool) else v.cond))
    if isinstance(v, TriIdx):
        qs = [fresh_q() for _ in v.his]
        return mk_sum(list(zip(qs, v.his)), ind(csub(v.cond, {('i', k): A(q) for k, q in enumerate(qs)})))
    return None


def py_len(ip, v):
    if isinstance(v, Obj):
        f = ip.lookup(v.cls, '__len__')
        if f is not None:
            r = ip.call(Bound(f, v), [])
            if isinstance(r, Sc) and not isintty(r.ty) or r is None or isinstance(r, (str, tuple)):
                ip.throw('TypeError', 'object cannot be interpreted as an integer')
            return r
        r = obj_len(ip, v)
        if r is not None:
            return r
        ip.throw('TypeError', "object of type '%s' has no len()" % v.cls.name)
    if isinstance(v, Unk):
        return v
    if isinstance(v, Opq):
        if v.ty is None or v.ty.name in ('list', 'tuple', 'str', 'dict'):
            return Sc(A(('fn', 'len', (A(('opq', v.key)),))), 'int')
    if isinstance(v, StrV):
        return Sc(A(('fn', 'len', (A(('opq', v.key)),))), 'int')
    if isinstance(v, PList) and v.kind == 'gen':
        ip.throw('TypeError', "object of type 'generator' has no len()")
    n = length(ip, v)
    if n is None:
        ip.throw('TypeError', 'object has no len()')
    return mkS(n, 'int')


def setitem(ip, o, i, v):
    if isinstance(o, GlobalsV):
        if isinstance(i, str):
            ip.put(o.mod, i, v)
        else:
            ip.taint('globals()')
        return
    if isinstance(o, Arr):
        return arr_setitem(ip, o, i, v)
    if isinstance(o, PDict):
        owner_check(ip, o, 'dict')
        k = vkey(i)
        ents = []
        done = False
        for e in o.ents:
            if not e.vars and not e.weak and e.cond is True and vkey(e.key) == k:
                ents.append(Ent((), True, i, v))
                done = True
            else:
                ents.append(e)
        if not done:
            ents.append(Ent((), True, i, v))
        ip.put(o, 'ents', tuple(ents))
        return
    if isinstance(o, PList):
        if o.kind in ('tuple', 'set', 'gen'):
            ip.throw('TypeError', 'object does not support item assignment')
        owner_check(ip, o, 'list')
        c = o.concrete()
        if c is not None and is_intlike(i) and poly(i).const() is not None:
            k = int(poly(i).const())
            if not -len(c) <= k < len(c):
                ip.throw('IndexError', 'list assignment index out of range')
            c = list(c)
            c[k] = v
            ip.put(o, 'segs', tuple(one(x) for x in c))
            return
        if isinstance(i, SliceV) and i.lo is None and i.hi is None:
            g = iterate(ip, v)
            if g is not None:
                ip.put(o, 'segs', tuple(g))
                return
        # symbolic store into a uniform list: model as 1-d array-like list
        segs = o.segs
        if is_intlike(i) and len(segs) == 1 and not isinstance(segs[0], AccSeg) and len(segs[0].vars) == 1 \
                and segs[0].cond is True and isnum(v) and isnum(segs[0].val):
            q, h = segs[0].vars[0]
            val = Sc(ite(mk_eq(A(q) - poly(i)), poly(v), poly(segs[0].val)), 'float')
            ip.put(o, 'segs', (Seg([(q, h)], True, val),))
            return
        ip.taint('list store')
        ip.put(o, 'segs', (Seg([(fresh_q(), seglen(segs) if not any(isinstance(g, AccSeg) for g in segs) else sym('unklen', 'int'))], True, Unk('list store')),))
        return
    if isinstance(o, Obj):
        f = ip.lookup(o.cls, '__setitem__')
        if f is not None:
            ip.call(Bound(f, o), [i, v])
            return
    if isinstance(o, Unk):
        ip.taint('store into unknown')
        return
    ip.throw('TypeError', 'object does not support item assignment')


def delitem(ip, o, i):
    if isinstance(o, PDict):
        owner_check(ip, o, 'dict')
        k = vkey(i)
        ents = o.ents
        for e in ents:
            if not e.vars and not e.weak and vkey(e.key) == k:
                ip.put(o, 'ents', tuple(x for x in ents if x is not e))
                return
        if o.concrete() is not None:
            ip.throw('KeyError', 'key')
        ip.taint('del of symbolic key')
        ip.put(o, 'ents', tuple(Ent(e.vars, e.cond, e.key, e.val, e.weak or 'del') for e in o.ents))
        return
    if isinstance(o, PList):
        owner_check(ip, o, 'list')
        c = o.concrete()
        if c is not None and is_intlike(i) and poly(i).const() is not None:
            c = list(c)
            try:
                del c[int(poly(i).const())]
            except IndexError:
                ip.throw('IndexError', 'list assignment index out of range')
            ip.put(o, 'segs', tuple(one(x) for x in c))
            return
        if isinstance(i, SliceV) and i.lo is None and i.hi is None:
            ip.put(o, 'segs', ())
            return
    ip.taint('del item')


def append(ip, l, v):
    owner_check(ip, l, 'list')
    ip.put(l, 'segs', l.segs + (one(v),))


# ------------------------------------------------------------------ dictionaries
def key_eq(ip, a, b):
    """Condition under which two hashable keys are equal."""
    if isinstance(a, Unk) or isinstance(b, Unk):
        return ('p', 'unk', 'key')
    if isnum(a) and isnum(b):
        return mk_eq(poly(a) - poly(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return mk_and(*[key_eq(ip, x, y) for x, y in zip(a, b)])
    if isinstance(a, (StrV, Opq)) or isinstance(b, (StrV, Opq)):
        ka, kb = vkey(a), vkey(b)
        if ka == kb:
            return True
        if isinstance(a, StrV) and isnum(b) or isinstance(b, StrV) and isnum(a):
            return False
        return ('p', 'keyeq') + tuple(sorted((ka, kb), key=rk))
    return vkey(a) == vkey(b)


def ent_match(ip, e, key):
    c = key_eq(ip, e.key, key)
    if c is False:
        return False, {}
    c = mk_and(e.cond, c)
    mp = {}
    left = list(e.vars)
    changed = True
    while changed and left and c is not False and c is not True:
        changed = False
        lits = list(c[1]) if c[0] == 'and' else [c]
        for q, h in left:
            for l in lits:
                if l[0] == 'eq':
                    s = solve_eq(l[1], q)
                    if s is not None and q not in free(s):
                        one_ = {q: s}
                        h2 = subst(h, one_)
                        c = mk_and(*([csub(x, one_) for x in lits if x is not l] +
                                     [mk_le(-s), mk_lt(s - h2)]))
                        mp = {k: subst(v, one_) for k, v in mp.items()}
                        mp[q] = s
                        left = [(x, subst(y, one_)) for x, y in left if x != q]
                        changed = True
                        break
            if changed:
                break
    if left and c is not False:
        c = mk_any(left, c)
    if e.weak and c is not False:
        c = mk_and(c, ('p', 'haskey', e.weak, vkey(key)))
    return c, mp


def dict_get(ip, d, key):
    for e in reversed(d.ents):
        if isinstance(e.key, Unk):
            ip.taint('unknown dictionary content')
            continue
        c, mp = ent_match(ip, e, key)
        if c is False:
            continue
        if ip.decide(c):
            v = vsub(e.val, mp) if mp else e.val
            if e.weak and e.weak != 'del':
                ip.event('cache-hit', e.weak, key)
            return v
    return MISSING


# ------------------------------------------------------------------ iteration
def iterate(ip, v):
    """Segments of an iterable, None if unknown. Raises TypeError if not iterable."""
    if isinstance(v, tuple):
        return [one(x) for x in v]
    if isinstance(v, PList):
        segs = v.segs
        if v.kind == 'gen':
            ip.put(v, 'segs', ())
        return list(segs)
    if isinstance(v, PDict):
        c = v.concrete()
        if c is None:
            return None
        return [one(k) for k, _ in c]
    if isinstance(v, str):
        return [one(x) for x in v]
    if isinstance(v, Arr):
        if v.ndim == 0:
            ip.throw('TypeError', 'iteration over a 0-d array')
        n = v.shape[0]
        c = n.const()
        if c is not None and c <= 40:
            return [one(arr_getitem(ip, v, k)) for k in range(int(c))]
        q = fresh_q()
        if v.ndim == 1:
            b = body_of(v)
            if isinstance(b, Unk):
                return None
            return [Seg([(q, n)], True, elem_value(ip, bsub(b, {('i', 0): A(q)}), v.dt))]
        return [Seg([(q, n)], True,
                    Arr(v.shape[1:], bsub(body_of(v), dict([(('i', 0), A(q))] + [(('i', k), I(k - 1)) for k in range(1, v.ndim)])),
                        v.dt, v.fmt, v.owner))]
    if isinstance(v, RegArr):
        qs = [fresh_q() for _ in v.shape]
        mp = {('i', k): A(q) for k, q in enumerate(qs)}
        return [Seg(list(zip(qs, v.shape)), csub(v.cond, mp) if not isinstance(v.cond, bool) else v.cond,
                    elem_value(ip, bsub(v.body, mp), v.dt))]
    if isinstance(v, TriIdx):
        qs = [fresh_q() for _ in v.his]
        mp = {('i', k): A(q) for k, q in enumerate(qs)}
        return [Seg(list(zip(qs, v.his)), csub(v.cond, mp), Sc(A(qs[v.k]), 'npint'))]
    if isinstance(v, Obj):
        f = ip.lookup(v.cls, '__iter__')
        if f is not None:
            return iterate(ip, ip.call(Bound(f, v), []))
        r = obj_iter(ip, v)
        if r is not None:
            return r
        gi = ip.lookup(v.cls, '__getitem__')
        if gi is not None:
            return None
        ip.throw('TypeError', "'%s' object is not iterable" % v.cls.name)
    if isinstance(v, Unk):
        return None
    if isinstance(v, Opq):
        if v.ty is None or v.ty.name in ('list', 'tuple', 'dict'):
            q = fresh_q()
            return [Seg([(q, A(('fn', 'len', (A(('opq', v.key)),))))], True, Opq(('item', v.key, A(q)), None))]
    if isinstance(v, StrV):
        return None
    ip.throw('TypeError', 'object is not iterable')


def clone_segs(segs):
    """Fresh variables, so that independent iterations do not share them."""
    out = []
    for g in segs:
        if isinstance(g, AccSeg) or not g.vars:
            out.append(g)
            continue
        mp = {q: A(fresh_q()) for q, _ in g.vars}
        vs = [(mp[q].single_atom(), subst(h, mp)) for q, h in g.vars]
        out.append(Seg(vs, csub(g.cond, mp) if g.cond is not True else True, vsub(g.val, mp)))
    return out


def zip_segs(ip, lists):
    """zip of segment lists."""
    if not lists:
        return []
    if all(len(l) == 1 for l in lists) and all(not isinstance(l[0], AccSeg) for l in lists):
        gs = [l[0] for l in lists]
        if all(len(g.vars) == 1 and g.cond is True for g in gs):
            n = gs[0].vars[0][1]
            for g in gs[1:]:
                h = g.vars[0][1]
                if facts_eq(ip, n, h) is True:
                    continue
                if ip.decide(mk_le(n - h)):
                    continue
                n = h
            q = fresh_q()
            vals = []
            for g in gs:
                vals.append(vsub(g.val, {g.vars[0][0]: A(q)}))
            return [Seg([(q, n)], True, tuple(vals))]
        # identical multi-variable structure (triangular index pairs)
        if all(len(g.vars) == len(gs[0].vars) for g in gs) and len(gs[0].vars) > 1:
            q0 = [q for q, _ in gs[0].vars]
            vals = [gs[0].val]
            for g in gs[1:]:
                mp = {q: A(x) for (q, _), x in zip(g.vars, q0)}
                if [subst(h, mp) for _, h in g.vars] != [h for _, h in gs[0].vars] or \
                        csub(g.cond, mp) != gs[0].cond:
                    return None
                vals.append(vsub(g.val, mp))
            return [Seg(gs[0].vars, gs[0].cond, tuple(vals))]
    conc = []
    for l in lists:
        if any(isinstance(g, AccSeg) or g.vars or g.cond is not True for g in l):
            conc = None
            break
        conc.append([g.val for g in l])
    if conc is not None:
        return [one(t) for t in zip(*conc)]
    # mixture of concrete prefix and generic rest: element by element
    cur = [list(clone_segs(l)) for l in lists]
    out = []
    for _ in range(200):
        if any(not l for l in cur):
            return out
        if any(isinstance(l[0], AccSeg) or l[0].cond is not True or len(l[0].vars) > 1 for l in cur):
            return None
        if all(l[0].vars for l in cur):
            r = zip_segs(ip, [[l[0]] for l in cur])
            if r is None:
                return None
            out += r
            his = [l[0].vars[0][1] for l in cur]
            n = r[0].vars[0][1]
            rest = []
            for l, h in zip(cur, his):
                if facts_eq(ip, h, n) is True:
                    rest.append(l[1:])
                else:
                    q, _ = l[0].vars[0]
                    q2 = fresh_q()
                    rest.append([Seg([(q2, h - n)], True, vsub(l[0].val, {q: A(q2) + n}))] + l[1:])
            if any(not x for x in rest):
                return out
            cur = rest
            continue
        vals = []
        nxt = []
        for l in cur:
            g = l[0]
            if not g.vars:
                vals.append(g.val)
                nxt.append(l[1:])
            else:
                q, h = g.vars[0]
                if not ip.decide(mk_lt(-h)):
                    nxt = None
                    break
                vals.append(vsub(g.val, {q: ZERO}))
                q2 = fresh_q()
                nxt.append([Seg([(q2, h - ONE)], True, vsub(g.val, {q: A(q2) + ONE}))] + l[1:])
        if nxt is None:
            cur = [l[1:] if l[0].vars and ip.known(mk_lt(-l[0].vars[0][1])) is False else l for l in cur]
            continue
        out.append(one(tuple(vals)))
        cur = nxt
    return None


def product_segs(ip, lists):
    out = [Seg((), True, ())]
    for l in lists:
        new = []
        for g in out:
            for h in clone_segs(l):
                if isinstance(h, AccSeg):
                    return None
                new.append(Seg(tuple(g.vars) + tuple(h.vars), mk_and(g.cond, h.cond), g.val + (h.val,)))
        out = new
    return out


def make_set(ip, l):
    if isinstance(l, PList):
        c = l.concrete()
        if c is not None:
            out, ks = [], set()
            allconst = True
            for v in c:
                k = vkey(v)
                if k not in ks:
                    ks.add(k)
                    out.append(v)
                if not (isinstance(v, (int, str, tuple, TypeV)) or v is None or (isinstance(v, Sc) and v.p.const() is not None)):
                    allconst = False
            if allconst or len(out) <= 1:
                return PList(out, kind='set')
        r = None
        if all(not isinstance(g, AccSeg) and isnum(g.val) for g in l.segs):
            r = sorted_unique(ip, list(l.segs))
        if r and len(r) == 1 and len(r[0].vars) == 1 and r[0].cond is True:
            # distinct elements in unspecified order
            k = ('set', seq_key(r))
            SETS[k] = r
            q = fresh_q()
            ty = r[0].val.ty if isinstance(r[0].val, Sc) else 'int'
            return PList(segs=[Seg([(q, r[0].vars[0][1])], True,
                                   Sc(mk_idx(('sx', k), (A(q),)), ty))], kind='set')
        return PList(segs=l.segs, kind='set')
    return ip.unk('set')


SETS = {}


def seq_key(segs):
    return tuple(segkey(g) for g in segs)


def monotone_seg(ip, g):
    """Is the segment strictly increasing and unconditional?"""
    if isinstance(g, AccSeg) or len(g.vars) != 1 or g.cond is not True or not isinstance(g.val, (int, Sc)):
        return False
    q, h = g.vars[0]
    p = poly(g.val)
    s = p.single_atom()
    if s and s[0] == 'idx' and s[1][0] == 'su' and s[2] == (A(q),):
        return True
    d = subst(p, {q: A(q) + ONE}) - p
    c = d.const()
    return c is not None and c > 0


def sorted_unique(ip, segs):
    """Sorted distinct elements."""
    if len(segs) == 1 and not isinstance(segs[0], AccSeg) and monotone_seg(ip, segs[0]):
        return list(segs)
    if len(segs) == 1 and not segs[0].vars and segs[0].cond is True:
        return list(segs)
    conc = []
    for g in segs:
        if isinstance(g, AccSeg) or g.vars or g.cond is not True or not isnum(g.val) or poly(g.val).const() is None:
            conc = None
            break
        conc.append(g.val)
    if conc is not None:
        m = {}
        for v in conc:
            m[poly(v).const()] = v
        return [one(m[k]) for k in sorted(m)]
    if len(segs) == 1 and not isinstance(segs[0], AccSeg) and segs[0].vars:
        s = poly(segs[0].val).single_atom() if isnum(segs[0].val) else None
        if s and s[0] == 'idx' and s[1][0] == 'sx' and s[2] == (A(segs[0].vars[0][0]),):
            return clone_segs(SETS[s[1][1]])
        k = seq_key(segs)
    else:
        k = seq_key(segs)
    ty = 'int'
    for g in segs:
        if isinstance(g, AccSeg) or not isnum(g.val):
            return None
        if isinstance(g.val, Sc) and not isintty(g.val.ty):
            ty = 'float'
    q = fresh_q()
    n = A(('fn', 'len', (A(('opq', ('su', k))),)))
    # at least one, when the source is not empty
    src = seglen(segs)
    if ip.known(mk_le(ONE - src)) is True:
        try:
            ip.assume(mk_le(ONE - n))
        except Exception:
            pass
    return [Seg([(q, n)], True, Sc(mk_idx(('su', k) if ty == 'int' else ('suf', k), (A(q),)), ty))]


def stable_order(ip, ks):
    """Positions in ascending stable order, deciding the comparisons."""
    out = []
    for q, k in enumerate(ks):
        at = len(out)
        while at > 0 and ip.decide(mk_lt(k - ks[out[at - 1]])):
            at -= 1
        out.insert(at, q)
    return out


def py_sorted(ip, v, reverse=False, key=None):
    segs = iterate(ip, v)
    if segs is None:
        return ip.unk('sorted')
    if key is not None:
        c = PList(segs=segs).concrete()
        if c is not None and len(c) <= 1:
            return PList(c)
        if c is not None and len(c) <= 4:
            ks = [ip.call(key, [x], {}) for x in c]
            if all(isnum(k) for k in ks):
                sg = -1 if reverse is True else 1
                return PList([c[q] for q in stable_order(ip, [P(sg) * poly(k) for k in ks])])
            if all(isinstance(k, str) for k in ks):
                return PList([c[q] for q in sorted(range(len(c)), key=lambda q: ks[q], reverse=reverse is True)])
        return ip.unk('sorted with key')
    if isinstance(v, PList) and v.kind == 'set':
        r = sorted_unique(ip, segs)
        if r is None:
            cc = PList(segs=segs).concrete()
            if cc is not None and all(isinstance(x, str) for x in cc):
                return PList(sorted(cc, reverse=reverse is True))
            return ip.unk('sorted set')
        if reverse is True:
            r = reverse_segs(ip, r)
        return PList(segs=r) if r is not None else ip.unk('reverse')
    if len(segs) == 1 and not isinstance(segs[0], AccSeg):
        g = segs[0]
        if monotone_seg(ip, g) or not g.vars:
            r = segs
            if reverse is True:
                r = reverse_segs(ip, segs)
            return PList(segs=r)
        s = poly(g.val).single_atom() if isnum(g.val) and g.vars else None
        if s and s[0] == 'idx' and s[1][0] == 'sx' and s[2] == (A(g.vars[0][0]),):
            r = sorted_unique(ip, segs)
            if reverse is True:
                r = reverse_segs(ip, r)
            return PList(segs=r)
    c = PList(segs=segs).concrete()
    if c is not None:
        if all(isinstance(x, str) for x in c):
            return PList(sorted(c, reverse=reverse is True))
        if all(isnum(x) and poly(x).const() is not None for x in c):
            return PList(sorted(c, key=lambda x: poly(x).const(), reverse=reverse is True))
        if len(c) == 2 and all(isnum(x) for x in c) and reverse is not True:
            if ip.decide(mk_le(poly(c[0]) - poly(c[1]))):
                return PList(c)
            return PList([c[1], c[0]])
    if all(not isinstance(g, AccSeg) and isnum(g.val) for g in segs):
        q = fresh_q()
        return PList(segs=[Seg([(q, seglen(segs))], True,
                               Sc(mk_idx(('sorted', seq_key(segs)), (A(q),)), 'int' if all(isintty(tyof(g.val)) for g in segs) else 'float'))])
    return ip.unk('sorted')


def reverse_segs(ip, segs):
    out = []
    for g in reversed(segs):
        if isinstance(g, AccSeg):
            return None
        if not g.vars:
            out.append(g)
        elif len(g.vars) == 1 and g.cond is True:
            q, h = g.vars[0]
            r = fresh_q()
            out.append(Seg([(r, h)], True, vsub(g.val, {q: h - ONE - A(r)})))
        else:
            return None
    return out


def py_range(ip, args):
    for a in args:
        if isinstance(a, Unk):
            return ip.unk('range')
        if not is_intlike(a) and not isinstance(a, bool):
            ip.throw('TypeError', 'object cannot be interpreted as an integer')
    ps = [poly(a) for a in args]
    if len(ps) == 1:
        lo, hi, st = ZERO, ps[0], ONE
    elif len(ps) == 2:
        lo, hi, st = ps[0], ps[1], ONE
    else:
        lo, hi, st = ps
    cs = [x.const() for x in (lo, hi, st)]
    if all(c is not None for c in cs):
        if cs[2] == 0:
            ip.throw('ValueError', 'range() arg 3 must not be zero')
        r = range(int(cs[0]), int(cs[1]), int(cs[2]))
        if len(r) <= 200:
            return PList(list(r), kind='range')
    if st == ONE:
        q = fresh_q()
        n = hi - lo
        if ip.known(mk_le(-n)) is None:
            # possibly negative span: an empty range
            if not ip.decide(mk_le(-n)):
                return PList([], kind='range')
        elif ip.known(mk_le(-n)) is False:
            return PList([], kind='range')
        return PList(segs=[Seg([(q, n)], True, Sc(lo + A(q), 'int'))], kind='range')
    if st == P(-1):
        n = lo - hi
        if not ip.decide(mk_le(-n)):
            return PList([], kind='range')
        q = fresh_q()
        return PList(segs=[Seg([(q, n)], True, Sc(lo - A(q), 'int'))], kind='range')
    q = fresh_q()
    n = A(('fn', 'rangelen', (lo, hi, st)))
    s = lo.single_atom()
    if s and s[0] == 'sym' and isinstance(s[1], tuple) and s[1][0] == 'slstart':
        dim = s[1][2]
        v = lo + st * A(q)
        r = fresh_q()
        vr = lo + st * A(r)
        try:
            ip.assume(mk_not(mk_any([(r, n)], mk_or(mk_lt(vr), mk_le(dim - vr)))))
        except Exception:
            raise
    return PList(segs=[Seg([(q, n)], True, Sc(lo + st * A(q), 'int'))], kind='range')


# ------------------------------------------------------------------ operators
OPS = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'Pow': '__pow__',
       'MatMult': '__matmul__', 'Mod': '__mod__', 'FloorDiv': '__floordiv__', 'BitAnd': '__and__',
       'BitOr': '__or__', 'BitXor': '__xor__'}
ROPS = {'Add': '__radd__', 'Mult': '__rmul__', 'Sub': '__rsub__', 'Div': '__rtruediv__'}


def binop(ip, op, a, b):
    if isinstance(a, Unk):
        return a
    if isinstance(b, Unk):
        return b
    if isinstance(a, Obj) and a.cls.name not in ('_none',):
        f = ip.lookup(a.cls, OPS.get(op, '?'))
        if f is not None:
            return ip.call(Bound(f, a), [b])
    if isinstance(b, Obj):
        f = ip.lookup(b.cls, ROPS.get(op, '?'))
        if f is not None:
            return ip.call(Bound(f, b), [a])
    if isinstance(a, Obj) or isinstance(b, Obj):
        if (isinstance(a, Obj) and a.info and a.info[0] in ('ext', 'extcall')) or \
                (isinstance(b, Obj) and b.info and b.info[0] in ('ext', 'extcall')):
            return ip.unk('arithmetic on external object')
        if isinstance(a, Arr) or isinstance(b, Arr):
            return ip.unk('arithmetic on object')
        ip.throw('TypeError', 'unsupported operand type(s) for %s' % op)
    if anyarr(a, b):
        return arr_binop(ip, op, a, b)
    if isnum(a) and isnum(b):
        return num_binop(ip, op, a, b)
    if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
        if op == 'Mod' and isinstance(a, (str, StrV)):
            return percent_format(ip, a, b)
        if op == 'Add' and isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
            return join_strs([a, b])
        if op == 'Mult' and isnum(a) or isnum(b) and op == 'Mult':
            s, n = (a, b) if isinstance(a, (str, StrV)) else (b, a)
            if isinstance(s, str) and isinstance(n, int):
                return s * n
            return StrV(('rep', vkey(s), vkey(n)))
        if isinstance(a, Opq) or isinstance(b, Opq):
            return ip.unk('op on opaque')
        ip.throw('TypeError', 'unsupported operand type(s) for %s' % op)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
        return a + b
    if isinstance(a, (PList, tuple)) and isnum(b) and op == 'Mult' or isinstance(b, (PList, tuple)) and isnum(a) and op == 'Mult':
        l, n = (a, b) if isinstance(a, (PList, tuple)) else (b, a)
        segs = iterate(ip, l)
        c = poly(n).const()
        if c is not None and c <= 60:
            r = PList(segs=list(segs) * int(c))
            if isinstance(l, tuple):
                return tuple(r.concrete())
            return r
        if len(segs) == 1 and not isinstance(segs[0], AccSeg) and not segs[0].vars:
            q = fresh_q()
            return PList(segs=[Seg([(q, poly(n))], True, segs[0].val)])
        return ip.unk('list repetition')
    if isinstance(a, PList) and isinstance(b, PList):
        if op == 'Add' and a.kind in ('list',) and b.kind in ('list',):
            return PList(segs=a.segs + b.segs)
        if a.kind == 'set' and b.kind == 'set':
            ca, cb = a.concrete(), b.concrete()
            if ca is not None and cb is not None:
                ka, kb = {vkey(x) for x in ca}, {vkey(x) for x in cb}
                if op == 'Sub':
                    return PList([x for x in ca if vkey(x) not in kb], kind='set')
                if op == 'BitAnd':
                    return PList([x for x in ca if vkey(x) in kb], kind='set')
                if op == 'BitOr':
                    return PList(ca + [x for x in cb if vkey(x) not in ka], kind='set')
            return ip.unk('set operation')
        ip.throw('TypeError', 'unsupported operand type(s)')
    if isinstance(a, PDict) and isinstance(b, PDict) and op == 'BitOr':
        r = PDict()
        r.s['ents'] = a.ents
        for e in b.ents:
            if e.vars or e.weak:
                return ip.unk('dict union')
            setitem(ip, r, e.key, e.val)
        return r
    if isinstance(a, Opq) or isinstance(b, Opq):
        # opaque operand of unknown type: treat as number if the other is one
        def np_(v):
            return A(('opq', v.key)) if isinstance(v, Opq) else None
        pa = np_(a) if isinstance(a, Opq) else (poly(a) if isnum(a) else None)
        pb = np_(b) if isinstance(b, Opq) else (poly(b) if isnum(b) else None)
        if pa is not None and pb is not None:
            return num_binop(ip, op, Sc(pa, 'float'), Sc(pb, 'float'))
        return ip.unk('op on opaque')
    if isinstance(a, TriIdx) or isinstance(b, TriIdx):
        return ip.unk('arithmetic on index arrays')
    ip.throw('TypeError', 'unsupported operand type(s) for %s' % op)


def num_binop(ip, op, a, b):
    pa, pb = poly(a), poly(b)
    ints = isintty(tyof(a)) and isintty(tyof(b))
    isnp = any(isinstance(x, Sc) and x.ty.startswith('np') for x in (a, b))
    ti = 'npint' if isnp else 'int'
    tf = 'npfloat' if isnp else 'float'
    ty = ti if ints else tf
    if op == 'Add':
        return mkS(pa + pb, ty)
    if op == 'Sub':
        return mkS(pa - pb, ty)
    if op == 'Mult':
        return mkS(pa * pb, ty)
    if op == 'Div':
        if pb.is_zero():
            if isnp:
                return Sc(NAN if pa.is_zero() else fn('divzero', pa), tf)
            ip.throw('ZeroDivisionError', 'division by zero')
        return Sc(pa / pb, tf)
    if op == 'Pow':
        if ints and pb.const() is not None and pb.const() < 0:
            return Sc(power(pa, pb), tf)
        if pb.const() is None and is_int(pa) and pa.const() is not None and ints:
            return Sc(power(pa, pb), tf)
        return mkS(power(pa, pb), ty)
    if op in ('FloorDiv', 'Mod'):
        ca, cb = pa.const(), pb.const()
        if cb == 0:
            ip.throw('ZeroDivisionError', 'division by zero')
        if ca is not None and cb is not None:
            import math
            q = math.floor(ca / cb)
            return mkS(P(q) if op == 'FloorDiv' else P(ca - q * cb), ty)
        f = fn('floor', pa / pb)
        return mkS(f if op == 'FloorDiv' else pa - pb * f, ty)
    if op in ('BitAnd', 'BitOr', 'BitXor') and all(isinstance(x, (bool, Bo)) for x in (a, b)):
        ca, cb = cond_of(ip, a), cond_of(ip, b)
        if op == 'BitAnd':
            return boolv(mk_and(ca, cb))
        if op == 'BitOr':
            return boolv(mk_or(ca, cb))
        return boolv(mk_or(mk_and(ca, mk_not(cb)), mk_and(mk_not(ca), cb)))
    if isinstance(a, int) and isinstance(b, int):
        try:
            return {'LShift': lambda: a << b, 'RShift': lambda: a >> b, 'BitAnd': lambda: a & b,
                    'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b}[op]()
        except (KeyError, ValueError):
            pass
    return ip.unk('operator %s' % op)


def arr_binop(ip, op, a, b):
    if op == 'MatMult':
        return matmul(ip, a, b)
    a, b = as_arrayish(ip, a), as_arrayish(ip, b)
    for v in (a, b):
        if isinstance(v, Unk):
            return v
        if isinstance(v, Opq):
            return ip.unk('array op with opaque')
        if v is None or isinstance(v, (str, StrV, PDict)):
            ip.throw('TypeError', 'unsupported operand types for array op')
        if not isinstance(v, (Arr, RegArr)) and not isnum(v):
            return ip.unk('array op')
        if isinstance(v, (Arr, RegArr)) and v.dt.name == 'str_':
            ip.throw('TypeError', 'ufunc does not contain a loop for strings')
    for v in (a, b):
        if isinstance(v, Arr) and v.fmt in ('matrix', 'lil') and op in ('Mult', 'Pow') and anyarr(a) and anyarr(b):
            return matmul(ip, a, b) if op == 'Mult' else ip.unk('matrix power')
    d = promote(num_dt(a), num_dt(b))
    for u, v in ((a, b), (b, a)):
        # a plain Python integer takes the type of the array
        if isinstance(u, (Arr, RegArr)) and u.dt.name in NARROW and (isinstance(v, int) or isinstance(v, Sc) and v.ty == 'int'):
            d = u.dt.name
    if op == 'Div' and (d in ('bool', 'int64') or d in NARROW):
        d = 'float64'
    wrap = (lambda p: fn('wrap_' + d, p) if p.const() is None else p) if d in NARROW else (lambda p: p)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        if d != 'bool':
            return ip.unk('bit op')

        def f(x, y):
            cx, cy = unind(x), unind(y)
            if op == 'BitAnd':
                return mk_and(cx, cy)
            if op == 'BitOr':
                return mk_or(cx, cy)
            return mk_or(mk_and(cx, mk_not(cy)), mk_and(mk_not(cx), cy))
        return elem(ip, f, [a, b], B1)
    if d == 'bool':
        d = 'int64'

    def f(x, y):
        if op == 'Add':
            return wrap(x + y)
        if op == 'Sub':
            return wrap(x - y)
        if op == 'Mult':
            return wrap(x * y)
        if op == 'Div':
            return safe_div(x, y)
        if op == 'Pow':
            return wrap(power(x, y))
        if op == 'FloorDiv':
            return fn('floor', x / y)
        if op == 'Mod':
            return x - y * fn('floor', x / y)
        raise UnkBody('operator %s' % op)
    return elem(ip, f, [a, b], Dt(d))


def safe_div(x, y):
    if y.is_zero():
        return fn('divzero', x)
    return x / y


def unind(p):
    if not isinstance(p, Poly):
        return p
    from .interp import ind_to_cond
    c = p.const()
    if c is not None:
        return c != 0
    r = ind_to_cond(p)
    return r if r is not None else mk_not(mk_eq(p))


def unop(ip, op, v):
    if isinstance(v, Unk):
        return v
    if op == 'USub':
        if isinstance(v, (bool, int)):
            return -v
        if isnum(v):
            return mkS(-poly(v), tyof(v))
        v2 = as_arrayish(ip, v) if isinstance(v, (Arr, RegArr)) else v
        if isinstance(v2, (Arr, RegArr)):
            return elem(ip, lambda x: -x, [v2], v2.dt if v2.dt.name != 'bool' else I8)
        if isinstance(v, Opq):
            return Sc(-A(('opq', v.key)), 'float')
    if op == 'UAdd':
        return v
    if op == 'Invert':
        if isinstance(v, (Arr, RegArr)) and v.dt.name == 'bool':
            return elem(ip, lambda x: mk_not(unind(x)), [v], B1)
        if isinstance(v, Bo) and v.np:
            return Bo(mk_not(v.c), True)
        if isinstance(v, bool):
            return ~v
        if isinstance(v, Bo):
            return ip.unk('~ of bool')
        return ip.unk('~')
    if isinstance(v, (str, PList, tuple, PDict)) or v is None:
        ip.throw('TypeError', 'bad operand type for unary op')
    return ip.unk('unary ' + op)


CMP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}


def cmpc(op, x, y):
    """Comparison condition with min/max reductions expanded."""
    d = x - y
    for a in d.atoms():
        if a[0] == 'fn' and a[1] in ('minover', 'maxover', 'min', 'max'):
            cs = [c for m, c in d.t if m == ((a, 1),)]
            others = [m for m, c in d.t if any(z == a for z, _ in m)]
            if len(cs) == 1 and len(others) == 1 and abs(cs[0]) == 1 and op in ('<', '<=', '>', '>='):
                s = cs[0]
                rest = d - P(s) * A(a)
                # s*a + rest op 0
                o = op if s > 0 else {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
                rest = rest * P(s)        # a + rest o 0
                ismin = a[1].startswith('min')
                exists = (ismin and o in ('<', '<=')) or (not ismin and o in ('>', '>='))
                if a[1] in ('min', 'max'):
                    if len(a[2]) > 6:
                        break
                    lits = [cmpc(o, z + rest, ZERO) for z in a[2]]
                    return mk_or(*lits) if exists else mk_and(*lits)
                sm = a[2][0].single_atom()
                qs = [fresh_q() for _ in sm[1]]
                b = subst(sm[3], {('L', sm[2], k): A(q) for k, q in enumerate(qs)})
                vs = list(zip(qs, sm[1]))
                c = cmpc(o, b + rest, ZERO)
                return mk_any(vs, c) if exists else mk_all(vs, c)
    return cmp(op, x, y)


def compare(ip, op, a, b):
    if op in ('Is', 'IsNot'):
        r = identical(ip, a, b)
        if isinstance(r, Unk):
            return r
        if isinstance(r, Bo):
            return r if op == 'Is' else Bo(mk_not(r.c))
        return r if op == 'Is' else not r
    if op in ('In', 'NotIn'):
        c = contains(ip, b, a)
        if isinstance(c, Unk):
            return c
        if op == 'NotIn':
            c = mk_not(c)
        return boolv(c)
    if isinstance(a, Unk):
        return a
    if isinstance(b, Unk):
        return b
    o = CMP[op]
    if isinstance(a, Obj) or isinstance(b, Obj):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                f = ip.lookup(x.cls, {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'Gt': '__gt__',
                                      'LtE': '__le__', 'GtE': '__ge__'}[op])
                if f is not None and x is a:
                    return ip.call(Bound(f, x), [y])
                if f is None and op == 'NotEq':
                    f = ip.lookup(x.cls, '__eq__')
                    if f is not None and x is a:
                        r = ip.call(Bound(f, x), [y])
                        return boolv(mk_not(cond_of(ip, r)))
        if op in ('Eq', 'NotEq'):
            return (a is b) == (op == 'Eq')
        ip.throw('TypeError', "'%s' not supported between instances" % o)
    if anyarr(a, b):
        for v in (a, b):
            if v is None or isinstance(v, (str, StrV)):
                if op in ('Eq', 'NotEq'):
                    if v is None:
                        w = a if v is b else b
                        if isinstance(w, Arr):
                            return Arr(w.shape, op == 'NotEq', B1)
                    return ip.unk('array compared with string')
                ip.throw('TypeError', 'comparison not supported')
            if isinstance(v, (Arr, RegArr)) and v.dt.name == 'str_' and op not in ('Eq', 'NotEq') and \
                    not (isinstance(a, Arr) and isinstance(b, Arr)):
                ip.throw('TypeError', 'ufunc comparison not supported for strings')
        a, b = as_arrayish(ip, a), as_arrayish(ip, b)
        for v in (a, b):
            if not isinstance(v, (Arr, RegArr)) and not isnum(v):
                return ip.unk('array comparison')
        return elem(ip, lambda x, y: cmpc(o, x, y), [a, b], B1)
    if isnum(a) and isnum(b):
        if isinstance(a, (bool, Bo)) and isinstance(b, (bool, Bo)) and op in ('Eq', 'NotEq'):
            ca, cb = cond_of(ip, a), cond_of(ip, b)
            e = mk_or(mk_and(ca, cb), mk_and(mk_not(ca), mk_not(cb)))
            return boolv(e if op == 'Eq' else mk_not(e))
        return boolv(cmpc(o, poly(a), poly(b)), any(isinstance(x, Sc) and x.ty.startswith('np') for x in (a, b)))
    if op in ('Eq', 'NotEq'):
        c = value_eq(ip, a, b)
        if isinstance(c, Unk):
            return c
        return boolv(c if op == 'Eq' else mk_not(c))
    if isinstance(a, str) and isinstance(b, str):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[o]
    if isinstance(a, Opq) or isinstance(b, Opq):
        pa = A(('opq', a.key)) if isinstance(a, Opq) else poly(a) if isnum(a) else None
        pb = A(('opq', b.key)) if isinstance(b, Opq) else poly(b) if isnum(b) else None
        if pa is not None and pb is not None:
            return boolv(cmpc(o, pa, pb))
        return ip.unk('comparison of opaque')
    if isinstance(a, tuple) and isinstance(b, tuple):
        return ip.unk('tuple ordering')
    ip.throw('TypeError', "'%s' not supported between instances" % o)


def value_eq(ip, a, b):
    if a is None or b is None:
        if isinstance(a, Opq) and a.ty is None or isinstance(b, Opq) and b.ty is None:
            v = a if isinstance(a, Opq) else b
            return ('p', 'isnone', v.key)
        return a is None and b is None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        cs = []
        for x, y in zip(a, b):
            if isnum(x) and isnum(y):
                cs.append(mk_eq(poly(x) - poly(y)))
            else:
                c = value_eq(ip, x, y) if not anyarr(x, y) else ip.unk('array in tuple eq')
                if isinstance(c, Unk):
                    return c
                cs.append(c)
        return mk_and(*cs)
    if isnum(a) and isnum(b):
        return mk_eq(poly(a) - poly(b))
    if isinstance(a, Dt) or isinstance(b, Dt):
        na, nb = dtname(ip, a), dtname(ip, b)
        if na is not None and nb is not None:
            return na == nb
        return False
    if isinstance(a, PList) and isinstance(b, PList):
        if (a.kind == 'set') != (b.kind == 'set'):
            return False
        ca, cb = a.concrete(), b.concrete()
        if ca is not None and cb is not None and a.kind == b.kind:
            if a.kind == 'set':
                return {vkey(x) for x in ca} == {vkey(x) for x in cb}
            return value_eq(ip, tuple(ca), tuple(cb))
        if vkey(a) == vkey(b):
            return True
        return ip.unk('list equality')
    if isinstance(a, PList) and isinstance(b, tuple) or isinstance(b, PList) and isinstance(a, tuple):
        return False
    return key_eq(ip, a, b)


def identical(ip, a, b):
    for x, y in ((a, b), (b, a)):
        if y is None or isinstance(y, bool):
            if x is y:
                return True
            if isinstance(x, Unk):
                return x
            if isinstance(x, Opq) and x.ty is None:
                return Bo(('p', 'is', x.key, y))
            if isinstance(x, Bo) and isinstance(y, bool):
                if x.np:
                    return False
                return Bo(x.c if y else mk_not(x.c))
            return False
    if isinstance(a, Unk) or isinstance(b, Unk):
        return a if isinstance(a, Unk) else b
    if a is b:
        return True
    if isinstance(a, (str, int)) and isinstance(b, (str, int)):
        return a == b and type(a) == type(b)
    if isinstance(a, (Ext,)) and isinstance(b, Ext):
        return a == b
    if isinstance(a, Bound) and isinstance(b, Bound):
        return False
    return False


def contains(ip, cont, x):
    """Condition of `x in cont`."""
    if isinstance(cont, Unk):
        return cont
    if isinstance(cont, GlobalsV):
        return x in cont.mod.s if isinstance(x, str) else ip.unk('globals()')
    if isinstance(cont, PDict):
        res = False
        for e in cont.ents:
            if isinstance(e.key, Unk):
                return ip.unk('unknown dict')
            c, _ = ent_match(ip, e, x)
            res = mk_or(res, c)
        return res
    if isinstance(cont, str):
        if isinstance(x, str):
            return x in cont
        if isinstance(x, StrV):
            return ('p', 'substr', x.key, cont)
        ip.throw('TypeError', "'in <string>' requires string as left operand")
    if isinstance(cont, (tuple, PList)):
        if isinstance(x, Unk):
            return x
        segs = iterate(ip, cont) if not (isinstance(cont, PList) and cont.kind == 'gen') else cont.segs
        res = False
        for g in segs:
            if isinstance(g, AccSeg):
                return ip.unk('membership in accumulating list')
            if anyarr(g.val, x):
                return ip.unk('array membership')
            if isinstance(g.val, (Obj, TypeV, Ext)) or isinstance(x, (Obj, TypeV, Ext)):
                c = identical(ip, g.val, x)
                if isinstance(c, Unk):
                    return c
                if isinstance(c, Bo):
                    c = c.c
            else:
                c = value_eq(ip, g.val, x)
                if isinstance(c, Unk):
                    return c
            c = mk_and(g.cond, c)
            if g.vars:
                c = mk_any(list(g.vars), c)
            res = mk_or(res, c)
        return res
    if isinstance(cont, Arr):
        if isnum(x):
            r = np_any(ip, compare(ip, 'Eq', cont, x))
            return cond_of(ip, r)
        return ip.unk('membership in array')
    if isinstance(cont, Obj):
        f = ip.lookup(cont.cls, '__contains__')
        if f is not None:
            return cond_of(ip, ip.call(Bound(f, cont), [x]))
        segs = iterate(ip, cont)
        if segs is None:
            return ip.unk('membership')
        return contains(ip, PList(segs=segs), x)
    if isinstance(cont, Opq):
        return ('p', 'contains', cont.key, vkey(x))
    ip.throw('TypeError', 'argument is not iterable')


def matmul(ip, a, b):
    a, b = as_arrayish(ip, a), as_arrayish(ip, b)
    for v in (a, b):
        if isinstance(v, Unk):
            return v
    if not (isinstance(a, Arr) and isinstance(b, Arr)):
        if isnum(a) or isnum(b):
            ip.throw('ValueError', 'matmul: scalar operand')
        if isinstance(a, RegArr) and isinstance(b, RegArr) and len(a.shape) == 1:
            return np_sum(ip, arr_binop(ip, 'Mult', a, b))
        return ip.unk('matmul')
    return dot(ip, a, b)


def dot(ip, a, b):
    a, b = as_arrayish(ip, a), as_arrayish(ip, b)
    if isinstance(a, Unk):
        return a
    if isinstance(b, Unk):
        return b
    if isnum(a) or isnum(b):
        return binop(ip, 'Mult', a, b)
    if isinstance(a, RegArr) and isinstance(b, RegArr):
        return np_sum(ip, arr_binop(ip, 'Mult', a, b))
    if not (isinstance(a, Arr) and isinstance(b, Arr)):
        return ip.unk('dot')
    if a.dt.name == 'str_' or b.dt.name == 'str_' or a.dt.bad or b.dt.bad:
        ip.throw('TypeError', 'cannot multiply strings')
    if a.ndim == 0 or b.ndim == 0:
        return arr_binop(ip, 'Mult', a, b)
    if a.rav is not None and b.rav is not None and a.ndim == 1 and b.ndim == 1 and a.rav[0] == b.rav[0]:
        return np_sum(ip, arr_binop(ip, 'Mult', a, b))
    na = a.shape[-1]
    kb = 0 if b.ndim == 1 else b.ndim - 2
    nb = b.shape[kb]
    if not ip.decide(mk_eq(na - nb)):
        ip.throw('ValueError', 'shapes not aligned')
    if a.ndim > 2 or b.ndim > 2:
        return ip.unk('dot of >2-d')
    q = fresh_q()
    ba, bb = nbody(a), nbody(b)
    mpa, mpb, shape = {}, {}, []
    if a.ndim == 2:
        mpa = {('i', 0): I(0), ('i', 1): A(q)}
        shape.append(a.shape[0])
    else:
        mpa = {('i', 0): A(q)}
    if b.ndim == 2:
        mpb = {('i', 0): A(q), ('i', 1): I(len(shape))}
        shape.append(b.shape[1])
    else:
        mpb = {('i', 0): A(q)}
    r = mk_sum([(q, na)], subst(ba, mpa) * subst(bb, mpb))
    d = promote(a.dt.name, b.dt.name)
    if d in NARROW:
        r = fn('wrap_' + d, r)
    fm = 'matrix' if 'matrix' in (a.fmt, b.fmt) else 'nd'
    if not shape:
        return Sc(r, 'npfloat')
    return Arr(tuple(shape), r, Dt(d), fm)


from .extlib import *          # noqa: E402,F401,F403
