"""Abstract meaning of builtins, standard library, numpy, scipy, scikit-learn."""
import string as _string
from .terms import *
from .terms import _bind
from .values import *
from .values import UnkBody
from .interp import PyRaise, GiveUp
from . import models as M
from .models import (TYPES, TYPES_EXT, T, isnum, poly, tyof, isintty, mkS, boolv, cond_of, dtname, mkdtype,
                     issubdt, promote, scalar_dt, cast_body, bcast, elem, anyarr, num_dt, map1, as_arrayish,
                     red, finish, np_sum, np_prod, np_any, np_all, minmax, np_arg, to_array, norm_index,
                     is_intlike, arr_getitem, elem_value, seqval, owner_check, arr_write, arr_write_all,
                     arr_setitem, getitem, setitem, length, py_len, append, dict_get, ent_match, iterate,
                     clone_segs, zip_segs, product_segs, make_set, sorted_unique, py_sorted, reverse_segs,
                     stable_order, seq_key, nbody, py_range, binop, num_binop, unop, compare, value_eq, identical, contains, matmul, dot,
                     EXT_INIT, DT_PARENT, DT_ALIAS, const)

__all__ = ['builtin', 'ext_attr', 'ext_type', 'call_ext', 'call_star', 'method', 'value_attr', 'obj_attr',
           'obj_len', 'obj_iter', 'obj_getitem', 'obj_call', 'opq_call', 'super_attr', 'type_attr', 'ext_init',
           'to_str', 'to_repr', 'format_value', 'join_strs', 'percent_format', 'isinst', 'vtype', 'akey',
           'deep_copy', 'EXT', 'collect']

EXT = {}
REQ = object()


def akey(v):
    """Closed key of a value (its own index placeholders are bound)."""
    return tsub(vkey(v), {('i', k): A(('L', 200 + k, 0)) for k in range(4)})


def ext(names, sig):
    ps = []
    for w in sig.split():
        if '=' in w:
            k, d = w.split('=', 1)
            ps.append((k, {'None': None, 'True': True, 'False': False}.get(d, int(d) if d.lstrip('-').isdigit() else d)))
        else:
            ps.append((w, REQ))

    def deco(f):
        for n in names.split():
            EXT[n] = (ps, f)
        return f
    return deco


def bindsig(ip, name, ps, args, kw):
    vals = {}
    if ps and ps[-1][0] == '*':
        pos = ps[:-1]
        vals['*'] = tuple(args[len(pos):])
        args = args[:len(pos)]
        ps = pos
    if len(args) > len(ps):
        ip.throw('TypeError', '%s: too many arguments' % name)
    for (k, _), v in zip(ps, args):
        vals[k] = v
    for k, v in kw.items():
        if k in vals:
            ip.throw('TypeError', '%s: multiple values for %s' % (name, k))
        if k not in dict(ps):
            return None
        vals[k] = v
    for k, d in ps:
        if k not in vals:
            if d is REQ:
                ip.throw('TypeError', '%s: missing argument %s' % (name, k))
            vals[k] = d
    return vals


def call_ext(ip, f, args, kw):
    if isinstance(f, TypeV):
        return call_type(ip, f, args, kw)
    name = f.name
    t = ext_type(ip, f)
    if t is not None and name not in EXT:
        return call_type(ip, t, args, kw)
    n6 = name[6:] if name.startswith('numpy.') else None
    if n6 is not None and DT_ALIAS.get(n6, n6) in DT_PARENT and name not in EXT:
        return np_scalar(ip, DT_ALIAS.get(n6, n6), args)
    if name in EXT:
        ps, fn_ = EXT[name]
        vals = bindsig(ip, name, ps, args, kw)
        if vals is None:
            ip.taint('unmodelled keyword of %s' % name)
            return ip.unk('keyword of %s' % name)
        out = vals.pop('out', None)
        if 'where' in vals and vals['where'] is True:
            vals.pop('where')
        r = fn_(ip, **{k if k != '*' else 'rest': v for k, v in vals.items()})
        if out is not None:
            if isinstance(out, tuple) and len(out) == 1:
                out = out[0]
            if isinstance(out, Arr):
                rr = r if isinstance(r, Arr) else to_array(ip, r) if isnum(r) else r
                if isinstance(rr, Arr):
                    arr_write_all(ip, out, rr)
                else:
                    owner_check(ip, out)
                    ip.put(out.root(), 'c', (Unk('out='), ()))
                return out
        return r
    if name.startswith('numpy.random.') or name.startswith('random.') or name.startswith('secrets.') \
            or name in ('uuid.uuid4', 'os.urandom'):
        ip.event('random', name)
        return random_call(ip, name, args, kw)
    root = name.split('.')[0]
    ip.event('ext-call', name, tuple(vkey(a) for a in args))
    for a in list(args) + list(kw.values()):
        a_ = a
        if isinstance(a_, Arr) and a_.root().owner is not None:
            ip.taint('array passed to unmodelled %s' % name)
    ip.taint('call of unmodelled %s' % name)
    return ip.unk('unmodelled %s' % name)


def random_call(ip, name, args, kw):
    fnm = name.split('.')[-1]
    if fnm in ('rand', 'randn') and all(isnum(a) for a in args):
        key = ('rand', len(ip.st.s['ev']))
        return Arr([poly(a) for a in args], mk_idx(key, tuple(I(k) for k in range(len(args)))))
    if fnm in ('random', 'random_sample', 'uniform', 'normal', 'standard_normal'):
        sz = kw.get('size', args[-1] if args and isinstance(args[-1], tuple) else None)
        if isinstance(sz, tuple) and all(isnum(a) for a in sz):
            key = ('rand', len(ip.st.s['ev']))
            return Arr([poly(a) for a in sz], mk_idx(key, tuple(I(k) for k in range(len(sz)))))
        if sz is None:
            return Sc(A(('opq', ('rand', len(ip.st.s['ev'])))), 'float')
    if fnm in ('seed',):
        return None
    if fnm in ('default_rng', 'RandomState', 'Generator', 'get_state'):
        return Opq(('rng', len(ip.st.s['ev'])), TYPES_EXT['numpy.random.RandomState'])
    return ip.unk(name)


# ------------------------------------------------------------------ types
for _n, _b in (('number', 'generic'), ('integer', 'number'), ('signedinteger', 'integer'),
               ('unsignedinteger', 'integer'), ('inexact', 'number'), ('floating', 'inexact'),
               ('complexfloating', 'inexact'), ('flexible', 'generic'), ('character', 'flexible')):
    M._e('numpy.' + _n, 'numpy.' + _b)
M._e('numpy.int64', 'numpy.signedinteger')
M._e('numpy.int32', 'numpy.signedinteger')
M._e('numpy.float64', 'numpy.floating', 'float')
M._e('numpy.float32', 'numpy.floating')
M._e('numpy.bool', 'numpy.generic')
M._e('numpy.str_', 'numpy.character')
TYPES_EXT['numpy.bool_'] = TYPES_EXT['numpy.bool']
for _a in ('int_', 'intp'):
    TYPES_EXT['numpy.' + _a] = TYPES_EXT['numpy.int64']
for _a in ('float_', 'double'):
    TYPES_EXT['numpy.' + _a] = TYPES_EXT['numpy.float64']
for _a in ('scipy.sparse.csr_matrix', 'scipy.sparse.csc_matrix', 'scipy.sparse.dok_matrix', 'scipy.sparse.coo_matrix'):
    M._e(_a, 'scipy.sparse.spmatrix')
TYPES_EXT['warnings.catch_warnings'] = TypeV('warnings.catch_warnings', (TYPES['object'],))
NUMTYPES = {'Number', 'Real', 'Integral'}
DTNAMES = {'numpy.' + x for x in list(DT_PARENT) + list(DT_ALIAS)}


def ext_type(ip, e):
    return TYPES_EXT.get(e.name)


def vtype(ip, v):
    """Type of a value as TypeV, or None when unknown."""
    if v is None:
        return TYPES['NoneType']
    if isinstance(v, bool):
        return TYPES['bool']
    if isinstance(v, int):
        return TYPES['int']
    if isinstance(v, Bo):
        return TYPES_EXT['numpy.bool'] if v.np else TYPES['bool']
    if isinstance(v, Sc):
        return {'int': TYPES['int'], 'float': TYPES['float'], 'npint': TYPES_EXT['numpy.int64'],
                'npfloat': TYPES_EXT['numpy.float64'], 'complex': TYPES['complex']}.get(v.ty, TYPES['float'])
    if isinstance(v, (str, StrV)):
        return TYPES['str']
    if isinstance(v, tuple):
        return TYPES['tuple']
    if isinstance(v, PList):
        return TYPES[{'gen': 'generator', 'range': 'range', 'set': 'set', 'tuple': 'tuple'}.get(v.kind, 'list')]
    if isinstance(v, PDict):
        return TYPES['dict']
    if isinstance(v, Arr):
        return TYPES_EXT[{'nd': 'numpy.ndarray', 'matrix': 'numpy.matrix', 'lil': 'scipy.sparse.lil_matrix'}.get(v.fmt, 'numpy.ndarray')]
    if isinstance(v, (RegArr, TriIdx)):
        return TYPES_EXT['numpy.ndarray']
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, TypeV):
        return TYPES['type']
    if isinstance(v, Ext):
        return TYPES['type'] if v.name in TYPES_EXT or v.name in DTNAMES else TYPES['function']
    if isinstance(v, (Func, Native, Bound, BoundM)):
        return TYPES['function']
    if isinstance(v, SliceV):
        return TYPES['slice']
    if isinstance(v, Dt):
        return TYPES_EXT['numpy.dtype']
    if isinstance(v, ModV):
        return TYPES['module']
    if isinstance(v, Opq):
        return v.ty
    return None


def isinst(ip, v, spec):
    """Condition (bool or cond) of isinstance(v, spec)."""
    if isinstance(spec, tuple):
        return mk_or(*[isinst(ip, v, s) for s in spec])
    if isinstance(spec, PList):
        return mk_or(*[isinst(ip, v, s) for s in (spec.concrete() or [])])
    if isinstance(spec, Ext):
        t = ext_type(ip, spec)
        if t is None:
            n = spec.name
            if n == 'types.FunctionType':
                t = TYPES['function']
            elif n.startswith('numpy.') and DT_ALIAS.get(n[6:], n[6:]) in DT_PARENT:
                t = TypeV(n, (TYPES['object'],))
                TYPES_EXT[n] = t
            elif n.startswith('typing.') or n.startswith('collections.'):
                ip.taint('isinstance %s' % n)
                return ('p', 'isinst', vkey(v), n)
            else:
                t = TypeV(n, (TYPES['object'],))
                TYPES_EXT[n] = t
        spec = t
    if not isinstance(spec, TypeV):
        if isinstance(spec, Unk):
            ip.taint('isinstance against unknown')
            return ('p', 'isinst', vkey(v), 'unk')
        ip.throw('TypeError', 'isinstance() arg 2 must be a type')
    if isinstance(v, Unk):
        ip.taint('isinstance of unknown: ' + str(v.why))
        return ('p', 'isinst', vkey(v), spec.name)
    t = vtype(ip, v)
    if t is None:
        if spec.name == 'object':
            return True
        return ('p', 'isinst', vkey(v), spec.name)
    if t.issub(spec):
        return True
    n = spec.name
    if n in ('Iterable', 'Sized', 'Collection', 'Container', 'Sequence', 'Callable', 'Hashable', 'Iterator', 'Mapping'):
        return abc_check(ip, v, t, n)
    if n in NUMTYPES:
        if t.name in ('int', 'bool', 'numpy.int64', 'numpy.int32'):
            return True
        if t.name in ('float', 'numpy.float64', 'numpy.float32'):
            return n != 'Integral'
        if t.name == 'complex':
            return n == 'Number'
        return False
    if n == 'ABC':
        return t.issub(TYPES['ABC'])
    return False


def abc_check(ip, v, t, n):
    nm = t.name
    if isinstance(v, Obj) or isinstance(v, Opq):
        need = {'Iterable': ['__iter__'], 'Sized': ['__len__'], 'Container': ['__contains__'],
                'Collection': ['__iter__', '__len__', '__contains__'], 'Callable': ['__call__'],
                'Iterator': ['__iter__', '__next__'], 'Hashable': [], 'Sequence': None, 'Mapping': None}[n]
        if isinstance(v, Obj):
            if need is None:
                return t.issub(TYPES[n])
            if all(ip.lookup(t, m) is not None for m in need):
                return True
            if v.info and v.info[0] == 'extseq':
                return n in ('Iterable', 'Sized', 'Sequence')
            return False
    if n == 'Callable':
        return nm in ('function', 'type', 'method')
    if n == 'Hashable':
        return nm not in ('list', 'dict', 'set', 'numpy.ndarray')
    seq = ('list', 'tuple', 'str', 'range')
    if n == 'Sequence':
        return nm in seq
    if n == 'Mapping':
        return nm == 'dict'
    if n == 'Iterator':
        return nm == 'generator'
    if n == 'Iterable' and nm == 'generator':
        return True
    if n == 'Sized' and nm == 'generator':
        return False
    if n in ('Iterable', 'Sized', 'Container', 'Collection'):
        return nm in seq + ('dict', 'set', 'frozenset', 'numpy.ndarray', 'numpy.matrix') or \
            (nm.startswith('scipy.sparse') and n == 'Iterable')
    return False


BUILTIN_NAMES = set('''abs all any bool callable chr dict dir divmod enumerate filter float format frozenset getattr
globals hasattr hash id int isinstance issubclass iter len list locals map max min next object open ord pow print
property range repr reversed round set setattr slice sorted staticmethod classmethod str sum super tuple type vars
zip delattr NotImplemented Ellipsis __import__ eval exec input complex bytes bytearray memoryview'''.split())


def builtin(ip, name):
    if name in TYPES and not name[0].isupper() and name not in ('function', 'generator', 'module', 'ellipsis', 'method', 'dtype'):
        return TYPES[name]
    if name in TYPES and TYPES[name].issub(TYPES['BaseException']):
        return TYPES[name]
    if name == 'ABC' or name in ('Iterable',):
        return None
    if name == '__name__':
        return None
    if name == 'Ellipsis':
        return Ext('builtins.Ellipsis')
    if name in BUILTIN_NAMES:
        return Ext('builtins.' + name)
    return None


CONSTS = {'numpy.pi': ('pi', 'float'), 'math.pi': ('pi', 'float'), 'numpy.e': ('e', 'float'), 'math.e': ('e', 'float')}


def ext_attr(ip, m, name):
    n = (m.name + '.' + name) if isinstance(m, Ext) else name
    if n in ('numpy.nan', 'numpy.NaN', 'numpy.NAN', 'math.nan'):
        return Sc(NAN, 'float')
    if n in ('numpy.inf', 'numpy.Inf', 'math.inf', 'numpy.infty'):
        return Sc(INF, 'float')
    if n in CONSTS:
        return Sc(fn(CONSTS[n][0]), 'float')
    if n == 'numpy.newaxis':
        return None
    if n in TYPES_EXT and n not in DTNAMES:
        t = TYPES_EXT[n]
        if n.startswith('abc.') or n.startswith('collections.abc') or n.startswith('numbers.') or \
                n.startswith('sklearn.') or t.issub(TYPES['BaseException']):
            return t
    n = ALIAS.get(n, n)
    if n == 'typing.TYPE_CHECKING':
        return False
    if n == 'sys.maxsize':
        return 2 ** 63 - 1
    return Ext(n)


ALIAS = {'numpy.absolute': 'numpy.abs', 'numpy.fabs': 'numpy.abs', 'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min',
         'numpy.true_divide': 'numpy.divide', 'numpy.conjugate': 'numpy.conj', 'numpy.core.multiarray.array': 'numpy.array',
         'numpy.linalg.linalg.LinAlgError': 'numpy.linalg.LinAlgError', 'numpy.bool8': 'numpy.bool_',
         'scipy.linalg.misc.norm': 'numpy.linalg.norm', 'scipy.linalg.norm': 'numpy.linalg.norm',
         'numpy.alltrue': 'numpy.all', 'numpy.sometrue': 'numpy.any', 'numpy.product': 'numpy.prod',
         'sklearn.utils.check_X_y': 'sklearn.utils.validation.check_X_y',
         'sklearn.utils.check_array': 'sklearn.utils.validation.check_array',
         'scipy.stats.stats.pearsonr': 'scipy.stats.pearsonr', 'numpy.pow': 'numpy.power',
         'scipy.sparse.isspmatrix': 'scipy.sparse.issparse', 'numpy.permute_dims': 'numpy.transpose',
         'math.fabs': 'numpy.abs', 'math.exp': 'numpy.exp', 'math.tanh': 'numpy.tanh', 'math.log': 'numpy.log',
         'math.isnan': 'numpy.isnan', 'math.isfinite': 'numpy.isfinite', 'math.isinf': 'numpy.isinf',
         'numpy.concat': 'numpy.concatenate', 'numpy.row_stack': 'numpy.vstack'}


def type_attr(ip, t, name):
    if name == '__name__':
        return t.name.split('.')[-1]
    if name == '__qualname__':
        return t.name
    if name == '__module__':
        return t.module.name if isinstance(t, ClassV) else 'builtins'
    if name == '__doc__':
        return StrV(('doc', t.name))
    if name in ('__mro__',):
        return tuple(t.mro)
    if name == '__bases__':
        return tuple(t.bases)
    if name == '__init__' or name == '__new__':
        init = sklearn_base(t)
        if init is not None and name == '__init__':
            return Native(t.name + '.__init__', lambda ip_, a, k: ext_init(ip_, a[0], a[1:], k, t) and None)
        return Native('object.__init__', lambda ip_, a, k: None)
    if name in ('__str__', '__repr__'):
        return Native('object' + name, lambda ip_, a, k: StrV(('repr', vkey(a[0]))))
    if name == '__subclasses__' or name == '__dict__':
        return ip.unk(name)
    if any(c.name in SK_METHODS and name in SK_METHODS[c.name] for c in t.mro):
        return Native(t.name + '.' + name, lambda ip_, a, k: sk_method(ip_, a[0], name, a[1:], k))
    if t.name in ('str', 'list', 'dict', 'tuple', 'set', 'numpy.ndarray', 'int', 'float'):
        return Native(t.name + '.' + name, lambda ip_, a, k: method(ip_, a[0], name, a[1:], k))
    return MISSING


def call_type(ip, t, args, kw):
    n = t.name
    if n in TCALL:
        return TCALL[n](ip, args, kw)
    if t.issub(TYPES['BaseException']):
        o = Obj(t)
        o.s['args'] = tuple(args)
        o.info = ('exc', ip.pos[0], ip.pos[1], ip.pos[2])
        return o
    if n == 'object':
        return Obj(t)
    if n in EXT_INIT or n.startswith('sklearn.'):
        o = Obj(t)
        ext_init(ip, o, args, kw)
        return o
    if n == 'functools.partial':
        f = args[0]
        pa, pk = list(args[1:]), dict(kw)
        o = Native('partial', lambda ip_, a, k: ip_.call(f, pa + list(a), dict(pk, **k)))
        o.partial_of = f
        return o
    if n == 'warnings.catch_warnings':
        return Opq(('catch_warnings',), None)
    if isinstance(t, TypeV) and not isinstance(t, ClassV):
        init = ip.lookup(t, '__init__')
        if isinstance(init, (Func, Native)):
            o = Obj(t)
            ip.call(Bound(init, o), args, kw)
            return o
    ip.taint('construct %s' % n)
    return ip.unk('construct %s' % n)


# ------------------------------------------------------------------ strings
def join_strs(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if out and isinstance(out[-1], str):
                out[-1] += p
            elif p:
                out.append(p)
        else:
            out.append(p)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return StrV(('cat',) + tuple(vkey(x) for x in out))


def to_str(ip, v):
    if isinstance(v, (str, StrV)):
        return v
    if isinstance(v, Obj):
        f = ip.lookup(v.cls, '__str__')
        if f is None:
            return to_repr(ip, v)
        r = ip.call(ip.bind(f, v), [])
        return chk_str(ip, r)
    return to_repr(ip, v)


def chk_str(ip, r):
    if isinstance(r, (str, StrV)):
        return r
    if isinstance(r, Unk):
        return StrV(('unk', r.why))
    if isinstance(r, Opq):
        return StrV(r.key)
    ip.throw('TypeError', '__str__ returned non-string')


def to_repr(ip, v):
    if v is None or isinstance(v, (bool, int)):
        return repr(v)
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, Obj):
        f = ip.lookup(v.cls, '__repr__')
        if f is not None:
            return chk_str(ip, ip.call(ip.bind(f, v), []))
        return StrV(('repr', vkey(v)))
    if isinstance(v, tuple):
        return join_strs(['('] + sum([[to_repr(ip, x), ', '] for x in v], []) + [')'])
    if isinstance(v, (PList, PDict)):
        if isinstance(v, PList):
            for g in v.segs:
                if not isinstance(g, AccSeg) and isinstance(g.val, (Obj, tuple, PList)):
                    to_repr(ip, g.val)
        else:
            for e in v.ents:
                for x in (e.key, e.val):
                    if isinstance(x, (Obj, tuple)):
                        to_repr(ip, x)
        return StrV(('repr', vkey(v)))
    return StrV(('repr', vkey(v)))


def format_value(ip, v, spec):
    if isinstance(v, Obj):
        f = ip.lookup(v.cls, '__format__')
        if f is not None:
            return chk_str(ip, ip.call(ip.bind(f, v), [spec]))
        if spec != '' and not v.info:
            ip.throw('TypeError', 'unsupported format string passed to object.__format__')
        return to_str(ip, v)
    if spec == '' or spec is None:
        return to_str(ip, v)
    if v is None or isinstance(v, (tuple, PList, PDict, Arr, TypeV)):
        ip.throw('TypeError', 'unsupported format string')
    if isinstance(spec, str) and isinstance(v, (str, StrV)) and spec[-1:] in 'dfgeE%':
        ip.throw('ValueError', 'unknown format code for str')
    if isinstance(v, (int, str)) and isinstance(spec, str):
        try:
            return format(v, spec)
        except ValueError:
            ip.throw('ValueError', 'format code')
    if isinstance(v, Sc) and isinstance(spec, str) and spec[-1:] == 'd' and not isintty(v.ty):
        ip.throw('ValueError', "Unknown format code 'd' for float")
    return StrV(('fmt', vkey(v), vkey(spec)))


def str_format(ip, s, args, kw):
    if not isinstance(s, str):
        for a in list(args) + list(kw.values()):
            format_value(ip, a, '')
        return StrV(('format', s.key) + tuple(vkey(a) for a in args))
    parts = []
    auto = 0
    try:
        fields = list(_string.Formatter().parse(s))
    except ValueError:
        ip.throw('ValueError', 'bad format string')
    for lit, field, spec, conv in fields:
        if lit:
            parts.append(lit)
        if field is None:
            continue
        import re
        m = re.match(r'([^.\[]*)(.*)$', field)
        first, rest = m.group(1), m.group(2)
        if first == '':
            first = auto
            auto += 1
        elif first.isdigit():
            first = int(first)
        if isinstance(first, int):
            if first >= len(args):
                ip.throw('IndexError', 'Replacement index %d out of range for positional args tuple' % first)
            v = args[first]
        else:
            if first not in kw:
                ip.throw('KeyError', first)
            v = kw[first]
        for mm in re.finditer(r'\.(\w+)|\[([^\]]*)\]', rest):
            if mm.group(1):
                v = ip.getattr(v, mm.group(1))
            else:
                k = mm.group(2)
                v = getitem(ip, v, int(k) if k.isdigit() else k)
        if conv == 'r':
            v = to_repr(ip, v)
        elif conv == 's':
            v = to_str(ip, v)
        if spec and '{' in spec:
            spec = str_format(ip, spec, args[auto:], kw)
        parts.append(format_value(ip, v, spec or ''))
    return join_strs(parts)


def percent_format(ip, s, v):
    import re
    if not isinstance(s, str):
        return StrV(('pct', s.key, vkey(v)))
    specs = re.findall(r'%(?:\((\w+)\))?[-+ #0]*\d*(?:\.\d+)?([a-zA-Z%])', s)
    specs = [x for x in specs if x[1] != '%']
    if any(x[0] for x in specs):
        for nm, _ in specs:
            to_str(ip, getitem(ip, v, nm))
        return StrV(('pct', s, vkey(v)))
    vals = list(v) if isinstance(v, tuple) else [v]
    if len(vals) != len(specs) and not isinstance(v, PDict):
        ip.throw('TypeError', 'not all arguments converted during string formatting'
                 if len(vals) > len(specs) else 'not enough arguments for format string')
    for x, (_, c) in zip(vals, specs):
        if c in 'dfgeEioxX' and not isnum(x) and not isinstance(x, (Unk, Opq)):
            ip.throw('TypeError', '%%%s format: a number is required' % c)
        to_repr(ip, x) if c == 'r' else to_str(ip, x)
    if all(isinstance(x, (str, int)) for x in vals):
        return s % tuple(vals)
    return StrV(('pct', s) + tuple(vkey(x) for x in vals))


STR_CASE = {'lower', 'upper', 'strip', 'casefold', 'lstrip', 'rstrip', 'title', 'capitalize', 'swapcase'}


def str_method(ip, s, name, args, kw):
    if name == 'format':
        return str_format(ip, s, args, kw)
    if name == 'join':
        segs = iterate(ip, args[0])
        if segs is None:
            return StrV(('join', vkey(s), vkey(args[0])))
        vals = []
        allc = True
        for g in segs:
            if isinstance(g, AccSeg):
                allc = False
                continue
            if not isinstance(g.val, (str, StrV, Unk, Opq)):
                ip.throw('TypeError', 'sequence item: expected str instance')
            vals.append(g)
            if g.vars or g.cond is not True:
                allc = False
        if allc:
            out = []
            for k, g in enumerate(vals):
                if k:
                    out.append(s)
                out.append(g.val)
            return join_strs(out)
        return StrV(('join', vkey(s)) + tuple(segkey(g) for g in vals))
    if isinstance(s, str) and all(isinstance(a, (str, int)) or (isinstance(a, tuple) and all(isinstance(z, str) for z in a)) or a is None for a in args) and not kw:
        f = getattr(s, name, None)
        if f is None:
            ip.throw('AttributeError', "'str' object has no attribute '%s'" % name)
        try:
            r = f(*args)
        except TypeError as e:
            ip.throw('TypeError', str(e))
        except ValueError as e:
            ip.throw('ValueError', str(e))
        return PList(r) if isinstance(r, list) else r
    if not hasattr('', name):
        ip.throw('AttributeError', "'str' object has no attribute '%s'" % name)
    key = s.key if isinstance(s, StrV) else s
    if name in STR_CASE:
        if isinstance(key, tuple) and key[0] == name:
            return s
        return StrV((name, key))
    if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isidentifier', 'isnumeric', 'isupper', 'islower'):
        return Bo(('p', 'str' + name, key) + tuple(vkey(a) for a in args))
    if name in ('replace', 'zfill', 'center', 'ljust', 'rjust', 'encode', 'removeprefix', 'removesuffix'):
        return StrV((name, key) + tuple(vkey(a) for a in args))
    return ip.unk('str.' + name)


# ------------------------------------------------------------------ helpers
def collect(ip, segs, f, kind='list'):
    """List of f(v) over segments."""
    l = PList(kind=kind)

    def body(v):
        append(ip, l, f(v))
        return None
    ip.run_loop(segs, body)
    return l


def call_star(ip, f, args, kw):
    """f(*unknown-length)."""
    stars = [a for a in args if isinstance(a, tuple) and len(a) == 2 and a[0] == '*']
    if isinstance(f, Ext) and f.name == 'builtins.zip' and len(args) == 1:
        return ip.unk('zip(*symbolic)')
    ip.taint('call with *symbolic arguments')
    return ip.unk('call with *symbolic')


def opq_call(ip, f, args, kw):
    if f.ty is not None and f.ty.name != 'function':
        ip.throw('TypeError', 'object is not callable')
    ip.event('opq-call', f.key, tuple(vkey(a) for a in args), tuple(sorted((k, vkey(v)) for k, v in kw.items())))
    return Opq(('call', f.key) + tuple(akey(a) for a in args) +
               tuple(sorted((k, akey(v)) for k, v in kw.items())), None)


def np_scalar(ip, n, args):
    if not args:
        return Sc(ZERO, 'npfloat')
    v = args[0]
    if n in M.ABSTRACT_DT:
        ip.throw('TypeError', 'cannot create instances')
    if isinstance(v, (Arr, PList, tuple, RegArr)):
        return to_array(ip, v, Dt(n))
    if isnum(v):
        if n == 'bool':
            return boolv(cond_of(ip, v), True)
        if n.startswith('int') or n.startswith('uint'):
            return Sc(poly(v) if isintty(tyof(v)) or is_int(poly(v)) else fn('trunc', poly(v)), 'npint')
        if n == 'float64':
            return Sc(poly(v), 'npfloat')
        if n in ('float32', 'float16'):
            return Sc(fn(n, poly(v)), 'npfloat')
    if n == 'str_':
        return to_str(ip, v)
    if isinstance(v, (str, StrV)) or v is None:
        ip.throw('ValueError' if v is not None else 'TypeError', 'could not convert')
    return ip.unk('numpy scalar')


# ------------------------------------------------------------------ type calls
def t_int(ip, args, kw):
    if not args:
        return 0
    v = args[0]
    if isinstance(v, bool) or isinstance(v, int):
        return int(v)
    if isinstance(v, Arr) and v.ndim == 0:
        v = Sc(nbody(v), 'npfloat')
    if isinstance(v, (Sc, Bo)):
        p = poly(v)
        return mkS(p if isintty(tyof(v)) or is_int(p) else fn('trunc', p), 'int')
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            ip.throw('ValueError', 'invalid literal for int()')
    if isinstance(v, (StrV, Opq)):
        if ip.decide(('p', 'intparse', vkey(v))):
            return Sc(A(('opq', ('int', vkey(v)))), 'int')
        ip.throw('ValueError', 'invalid literal for int()')
    if v is None or isinstance(v, (PList, tuple, PDict)):
        ip.throw('TypeError', 'int() argument')
    return ip.unk('int()')


def t_float(ip, args, kw):
    if not args:
        return Sc(ZERO, 'float')
    v = args[0]
    if isinstance(v, str):
        if v.strip().lower() in ('nan', '-nan', '+nan'):
            return Sc(NAN, 'float')
        if v.strip().lower() in ('inf', 'infinity', '+inf'):
            return Sc(INF, 'float')
        if v.strip().lower() in ('-inf', '-infinity'):
            return Sc(-INF, 'float')
        try:
            return Sc(P(float(v)), 'float')
        except ValueError:
            ip.throw('ValueError', 'could not convert string to float')
    if isinstance(v, Arr):
        n = ONE
        for x in v.shape:
            n = n * x
        if v.ndim and not ip.decide(mk_eq(n - ONE)):
            ip.throw('TypeError', 'only length-1 arrays can be converted')
        return Sc(subst(nbody(v), {('i', k): ZERO for k in range(v.ndim)}), 'float')
    if isnum(v):
        return Sc(poly(v), 'float')
    if isinstance(v, (StrV,)):
        if ip.decide(('p', 'floatparse', vkey(v))):
            return Sc(A(('opq', ('float', vkey(v)))), 'float')
        ip.throw('ValueError', 'could not convert string to float')
    if isinstance(v, Opq):
        if v.ty is not None:
            ip.throw('TypeError', 'float() argument')
        return Sc(A(('opq', v.key)), 'float')
    if v is None or isinstance(v, (PList, tuple, PDict)):
        ip.throw('TypeError', 'float() argument')
    return ip.unk('float()')


def t_str(ip, args, kw):
    return to_str(ip, args[0]) if args else ''


def t_bool(ip, args, kw):
    if not args:
        return False
    v = args[0]
    if isinstance(v, Bo):
        return Bo(v.c)
    if isinstance(v, (Sc,)):
        return boolv(mk_not(mk_eq(v.p)))
    return ip.truth(v)


def t_list(ip, args, kw):
    if not args:
        return PList()
    segs = iterate(ip, args[0])
    if segs is None:
        return ip.unk('list()')
    return PList(segs=clone_segs(segs))


def t_tuple(ip, args, kw):
    if not args:
        return ()
    if isinstance(args[0], tuple):
        return args[0]
    if isinstance(args[0], Arr) and args[0].ndim == 0:
        ip.throw('TypeError', 'iteration over a 0-d array')
    segs = iterate(ip, args[0])
    if segs is None:
        return ip.unk('tuple()')
    l = PList(segs=clone_segs(segs), kind='tuple')
    c = l.concrete()
    if c is not None:
        return tuple(c)
    return l


def t_set(ip, args, kw):
    if not args:
        return PList(kind='set')
    segs = iterate(ip, args[0])
    if segs is None:
        return ip.unk('set()')
    for g in segs:
        if not isinstance(g, AccSeg) and isinstance(g.val, (PList, PDict, Arr)) :
            ip.throw('TypeError', 'unhashable type')
    return make_set(ip, PList(segs=clone_segs(segs)))


def t_dict(ip, args, kw):
    d = PDict()
    if args:
        a = args[0]
        if isinstance(a, PDict):
            d.s['ents'] = a.ents
        else:
            segs = iterate(ip, a)
            if segs is None:
                return ip.unk('dict()')

            def body(v):
                it = ip.unpack(v, 2)
                if it is None:
                    raise GiveUp('dict()')
                setitem(ip, d, it[0], it[1])
                return None
            ip.run_loop(segs, body)
    for k, v in kw.items():
        setitem(ip, d, k, v)
    return d


def t_slice(ip, args, kw):
    a = list(args)
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


def t_type(ip, args, kw):
    if len(args) == 1:
        v = args[0]
        t = vtype(ip, v)
        if t is None:
            if isinstance(v, Opq):
                return Opq(('typeof', v.key), TYPES['type'])
            return ip.unk('type()')
        if t.name.startswith('numpy.') and t.name in DTNAMES:
            return Ext(t.name)
        return t
    return ip.unk('type()')


def t_range(ip, args, kw):
    return py_range(ip, args)


def t_property(ip, args, kw):
    return Prop(args[0] if args else kw.get('fget'), args[1] if len(args) > 1 else kw.get('fset'))


def t_super(ip, args, kw):
    return SuperV(args[0], args[1])


def t_complex(ip, args, kw):
    return Sc(A(('fn', 'complex', tuple(poly(a) for a in args))), 'complex')


TCALL = {'int': t_int, 'float': t_float, 'str': t_str, 'bool': t_bool, 'list': t_list, 'tuple': t_tuple,
         'set': t_set, 'frozenset': t_set, 'dict': t_dict, 'slice': t_slice, 'type': t_type, 'range': t_range,
         'property': t_property, 'super': t_super, 'complex': t_complex,
         'staticmethod': lambda ip, a, k: StaticM(a[0]), 'classmethod': lambda ip, a, k: ClassM(a[0]),
         'numpy.dtype': lambda ip, a, k: mkdtype(ip, a[0]) or ip.unk('dtype'),
         'scipy.sparse.lil_matrix': lambda ip, a, k: lil(ip, a, k),
         'numpy.matrix': lambda ip, a, k: np_matrix(ip, a, k)}
for _q in ('csr_matrix', 'csc_matrix', 'dok_matrix', 'coo_matrix'):
    TCALL['scipy.sparse.' + _q] = lambda ip, a, k: lil(ip, a, k)


def lil(ip, args, kw):
    v = args[0]
    dt = mkdtype(ip, kw.get('dtype', args[2] if len(args) > 2 else None)) or F8
    if isinstance(v, Arr):
        if v.ndim != 2:
            ip.throw('TypeError', 'sparse matrix must be 2-D')
        return Arr(v.shape, body_of(v), kw.get('dtype') and dt or v.dt, 'lil')
    if isinstance(v, tuple) and len(v) == 2 and all(isnum(x) for x in v):
        return Arr([poly(x) for x in v], ZERO, dt, 'lil')
    return ip.unk('sparse matrix')


def np_matrix(ip, args, kw):
    a = to_array(ip, args[0], copy=True)
    if isinstance(a, Arr) and a.ndim == 2:
        return Arr(a.shape, body_of(a), a.dt, 'matrix')
    return ip.unk('np.matrix')


# ------------------------------------------------------------------ builtins
@ext('builtins.len', 'o')
def b_len(ip, o):
    return py_len(ip, o)


@ext('builtins.isinstance', 'o t')
def b_isinstance(ip, o, t):
    return boolv(isinst(ip, o, t))


@ext('builtins.issubclass', 'c t')
def b_issubclass(ip, c, t):
    ts = t if isinstance(t, tuple) else (t,)
    ts = [ext_type(ip, x) if isinstance(x, Ext) else x for x in ts]
    if isinstance(c, Ext):
        c = ext_type(ip, c) or c
    if isinstance(c, Opq) and (c.ty is None or c.ty.name == 'type'):
        return Bo(('p', 'issub', c.key, tuple(getattr(x, 'name', '?') for x in ts)))
    if isinstance(c, Unk):
        return c
    if not isinstance(c, TypeV):
        ip.throw('TypeError', 'issubclass() arg 1 must be a class')
    return any(x in c.mro for x in ts if isinstance(x, TypeV))


@ext('builtins.hasattr', 'o name')
def b_hasattr(ip, o, name):
    if isinstance(o, Opq) and isinstance(name, str):
        return Bo(('p', 'hasattr', o.key, name))
    if not isinstance(name, str):
        return ip.unk('hasattr')
    return ip.hasattr(o, name)


@ext('builtins.getattr', 'o name *')
def b_getattr(ip, o, name, rest=()):
    if not isinstance(name, str):
        return ip.unk('getattr')
    if rest:
        try:
            return ip.getattr(o, name, rest[0])
        except PyRaise as e:
            if e.exc.cls.issub(TYPES['AttributeError']):
                return rest[0]
            raise
    return ip.getattr(o, name)


@ext('builtins.setattr', 'o name v')
def b_setattr(ip, o, name, v):
    if isinstance(name, StrV):
        ip.event('setattr-sym', vkey(o), name.key, v)
        ip.taint('setattr with symbolic name')
        return None
    if not isinstance(name, str):
        ip.throw('TypeError', 'attribute name must be string')
    ip.setattr(o, name, v)


@ext('builtins.delattr', 'o name')
def b_delattr(ip, o, name):
    ip.delattr(o, name)


@ext('builtins.callable', 'o')
def b_callable(ip, o):
    if isinstance(o, (Func, Bound, BoundM, Native, TypeV)):
        return True
    if isinstance(o, Ext):
        return True
    if isinstance(o, Obj):
        return ip.lookup(o.cls, '__call__') is not None
    if isinstance(o, Opq):
        if o.ty is not None:
            return o.ty.name in ('function', 'type')
        return Bo(('p', 'callable', o.key))
    if isinstance(o, Unk):
        return o
    return False


@ext('builtins.print', '*')
def b_print(ip, rest=()):
    for a in rest:
        to_str(ip, a)
    ip.event('print')


EXT['builtins.print'] = ([('sep', ' '), ('end', '\n'), ('file', None), ('flush', False)],
                         lambda ip, **k: ip.event('print'))


def _print(ip, args, kw):
    for a in args:
        to_str(ip, a)
    ip.event('print')
    return None


@ext('builtins.repr', 'o')
def b_repr(ip, o):
    return to_repr(ip, o)


@ext('builtins.format', 'o spec=')
def b_format(ip, o, spec):
    return format_value(ip, o, spec)


@ext('builtins.id builtins.hash', 'o')
def b_id(ip, o):
    return Sc(A(('opq', ('int', 'id', vkey(o)))), 'int')


@ext('builtins.iter', 'o')
def b_iter(ip, o):
    segs = iterate(ip, o)
    return ip.unk('iter') if segs is None else PList(segs=clone_segs(segs), kind='gen')


@ext('builtins.next', 'o *')
def b_next(ip, o, rest=()):
    if isinstance(o, PList) and o.kind == 'gen':
        segs = o.segs
        if not segs:
            if rest:
                return rest[0]
            ip.throw('StopIteration')
        g = segs[0]
        if not isinstance(g, AccSeg) and not g.vars and g.cond is True:
            ip.put(o, 'segs', segs[1:])
            return g.val
        if not isinstance(g, AccSeg) and len(g.vars) == 1 and g.cond is True:
            q, h = g.vars[0]
            if not ip.decide(mk_lt(-h)):
                ip.put(o, 'segs', segs[1:])
                return b_next(ip, o, rest)
            r = fresh_q()
            ip.put(o, 'segs', (Seg([(r, h - ONE)], True, vsub(g.val, {q: A(r) + ONE})),) + segs[1:])
            return vsub(g.val, {q: ZERO})
    return ip.unk('next')


@ext('builtins.enumerate', 'it start=0')
def b_enumerate(ip, it, start):
    segs = iterate(ip, it)
    if segs is None:
        return ip.unk('enumerate')
    segs = clone_segs(segs)
    if all(not isinstance(g, AccSeg) and not g.vars and g.cond is True for g in segs):
        return PList([(binop(ip, 'Add', start, k), g.val) for k, g in enumerate(segs)], kind='gen')
    if len(segs) == 1 and not isinstance(segs[0], AccSeg) and len(segs[0].vars) == 1 and segs[0].cond is True:
        g = segs[0]
        q, h = g.vars[0]
        return PList(segs=[Seg([(q, h)], True, (mkS(poly(start) + A(q), 'int'), g.val))], kind='gen')
    n = seglen_safe(segs)
    if n is not None:
        z = zip_segs(ip, [list(py_range(ip, [mkS(poly(start), 'int'), mkS(poly(start) + n, 'int')]).segs), segs])
        if z is not None:
            return PList(segs=z, kind='gen')
    return ip.unk('enumerate')


def seglen_safe(segs):
    try:
        return M.seglen(segs)
    except Exception:
        return None


@ext('builtins.zip', '*')
def b_zip(ip, rest=()):
    ls = []
    if rest and all(isinstance(x, TriIdx) for x in rest) and len({x.uid for x in rest}) == 1:
        t = rest[0]
        qs = [fresh_q() for _ in t.his]
        mp = {('i', k): A(q) for k, q in enumerate(qs)}
        return PList(segs=[Seg(list(zip(qs, t.his)), csub(t.cond, mp),
                               tuple(Sc(A(qs[x.k]), 'npint') for x in rest))], kind='gen')
    for a in rest:
        s = iterate(ip, a)
        if s is None:
            return ip.unk('zip')
        ls.append(clone_segs(s))
    z = zip_segs(ip, ls)
    return ip.unk('zip') if z is None else PList(segs=z, kind='gen')


EXT['builtins.zip'] = ([('strict', False)], lambda ip, **k: ip.unk('zip'))
VARARGS = {}


def _varcall(name):
    def deco(f):
        VARARGS[name] = f
        return f
    return deco


VARARGS['builtins.print'] = _print
VARARGS['builtins.zip'] = lambda ip, a, k: b_zip(ip, tuple(a))


@_varcall('builtins.map')
def b_map(ip, args, kw):
    f = args[0]
    ls = []
    for a in args[1:]:
        s = iterate(ip, a)
        if s is None:
            return ip.unk('map')
        ls.append(clone_segs(s))
    if len(ls) == 1:
        return collect(ip, ls[0], lambda v: ip.call(f, [v]), 'gen')
    z = zip_segs(ip, ls)
    if z is None:
        return ip.unk('map')
    return collect(ip, z, lambda v: ip.call(f, list(v)), 'gen')


@ext('builtins.filter', 'f it')
def b_filter(ip, f, it):
    segs = iterate(ip, it)
    if segs is None:
        return ip.unk('filter')
    l = PList(kind='gen')

    def body(v):
        if ip.truth(v if f is None else ip.call(f, [v])):
            append(ip, l, v)
        return None
    ip.run_loop(clone_segs(segs), body)
    return l


@ext('builtins.any', 'it')
def b_any(ip, it):
    if isinstance(it, (Arr, RegArr)):
        if isinstance(it, RegArr) or it.ndim == 1:
            return _plain(np_any(ip, it))
        return ip.unk('any of 2-d array')
    return quant(ip, it, True)


@ext('builtins.all', 'it')
def b_all(ip, it):
    if isinstance(it, (Arr, RegArr)):
        if isinstance(it, RegArr) or it.ndim == 1:
            return _plain(np_all(ip, it))
        return ip.unk('all of 2-d array')
    return quant(ip, it, False)


def _plain(v):
    return Bo(v.c) if isinstance(v, Bo) else v


def quant(ip, it, ex):
    segs = iterate(ip, it)
    if segs is None:
        return ip.unk('any/all')
    res = False
    for g in segs:
        if isinstance(g, AccSeg):
            return ip.unk('any/all of accumulating list')
        try:
            c = cond_of(ip, g.val) if isinstance(g.val, (bool, Bo, int, Sc, Unk)) else ip.truth(g.val)
        except UnkBody as e:
            return ip.unk(e.why)
        c = mk_and(g.cond, c if ex else mk_not(c))
        if g.vars:
            c = mk_any(list(g.vars), c)
        res = mk_or(res, c)
    return boolv(res if ex else mk_not(res))


@ext('builtins.sum', 'it start=0')
def b_sum(ip, it, start):
    acc = [start]
    segs = iterate(ip, it)
    if segs is None:
        return ip.unk('sum')
    fr = Mut()
    fr.s['acc'] = start
    ip.put(fr, 'acc', start)

    def body(v):
        ip.put(fr, 'acc', binop(ip, 'Add', fr.s['acc'], v))
        return None
    ip.run_loop(clone_segs(segs), body)
    return fr.s['acc']


def fold(ip, f, segs, start):
    fr = Mut()
    ip.put(fr, 'acc', start)

    def body(v):
        ip.put(fr, 'acc', ip.call(f, [fr.s['acc'], v]))
        return None
    ip.run_loop(clone_segs(segs), body)
    return fr.s['acc']


@ext('functools.reduce', 'f it *')
def f_reduce(ip, f, it, rest=()):
    segs = iterate(ip, it)
    if segs is None:
        return ip.unk('reduce')
    if rest:
        return fold(ip, f, segs, rest[0])
    g = PList(segs=clone_segs(segs), kind='gen')
    try:
        first = b_next(ip, g)
    except PyRaise:
        ip.throw('TypeError', 'reduce() of empty iterable')
    if isinstance(first, Unk):
        return first
    return fold(ip, f, g.segs, first)


def scalar_ish(ip, v):
    if isinstance(v, Arr) and v.ndim == 0 and isinstance(nbody(v), Poly):
        return Sc(nbody(v), 'npfloat')
    return v


def bi_minmax(name):
    def f(ip, args, kw):
        if kw.get('key') is not None:
            segs = iterate(ip, args[0]) if len(args) == 1 else None
            vals = list(args) if len(args) > 1 else PList(segs=clone_segs(segs)).concrete() if segs is not None else None
            if vals is not None and not vals and 'default' in kw:
                return kw['default']
            ks = [ip.call(kw['key'], [v], {}) for v in vals] if vals and len(vals) <= 5 else None
            ks = [scalar_ish(ip, k) for k in ks] if ks else None
            if ks and all(isnum(k) for k in ks):
                best = 0
                for q in range(1, len(ks)):
                    d_ = poly(ks[best]) - poly(ks[q])
                    if ip.decide(mk_lt(d_ if name == 'max' else -d_)):
                        best = q
                return vals[best]
            ip.taint(name + ' with key')
            return ip.unk(name + ' with key')
        if len(args) == 1:
            a = args[0]
            if isinstance(a, Arr):
                return minmax(ip, a, name) if a.ndim == 1 else ip.unk(name)
            segs = iterate(ip, a)
            if segs is None:
                return ip.unk(name)
            if not segs:
                if 'default' in kw:
                    return kw['default']
                ip.throw('ValueError', name + '() arg is an empty sequence')
            vals = [g.val for g in segs if not isinstance(g, AccSeg) and not g.vars and g.cond is True]
            if len(vals) == len(segs):
                return bi_minmax(name)(ip, vals, {}) if len(vals) > 1 else vals[0]
            arr = to_array(ip, PList(segs=clone_segs(segs)))
            return minmax(ip, arr, name) if isinstance(arr, Arr) else ip.unk(name)
        if all(isinstance(a, int) for a in args):
            return (max if name == 'max' else min)(args)
        if all(isnum(a) for a in args):
            ps = [poly(a) for a in args]
            it = all(isintty(tyof(a)) for a in args)
            if len(ps) == 2:
                d = ip.known(mk_le(ps[0] - ps[1]))
                if d is True:
                    return args[1] if name == 'max' else args[0]
                if d is False:
                    return args[0] if name == 'max' else args[1]
                if it:
                    if ip.decide(mk_le(ps[0] - ps[1])):
                        return args[1] if name == 'max' else args[0]
                    return args[0] if name == 'max' else args[1]
            return Sc(fn(name, *ps), 'int' if it else 'float')
        if any(a is None or isinstance(a, (str, StrV)) for a in args):
            ip.throw('TypeError', "'<' not supported between instances")
        return ip.unk(name)
    return f


VARARGS['builtins.max'] = bi_minmax('max')
VARARGS['builtins.min'] = bi_minmax('min')


@ext('builtins.abs', 'x')
def b_abs(ip, x):
    if isinstance(x, int):
        return abs(x)
    if isinstance(x, Sc):
        return Sc(fn('abs', x.p), x.ty)
    return np_un(ip, 'abs', x)


@ext('builtins.round', 'x nd=None')
def b_round(ip, x, nd):
    if isinstance(x, int):
        return x
    if isnum(x):
        return Sc(fn('round', poly(x), *([poly(nd)] if nd is not None else [])), 'int' if nd is None else 'float')
    return ip.unk('round')


@ext('builtins.pow', 'a b')
def b_pow(ip, a, b):
    return binop(ip, 'Pow', a, b)


@ext('builtins.divmod', 'a b')
def b_divmod(ip, a, b):
    return (binop(ip, 'FloorDiv', a, b), binop(ip, 'Mod', a, b))


@ext('builtins.sorted', 'it key=None reverse=False')
def b_sorted(ip, it, key, reverse):
    return py_sorted(ip, it, reverse, key)


@ext('builtins.reversed', 'it')
def b_reversed(ip, it):
    segs = iterate(ip, it)
    r = None if segs is None else reverse_segs(ip, clone_segs(segs))
    return ip.unk('reversed') if r is None else PList(segs=r, kind='gen')


@ext('builtins.vars', 'o')
def b_vars(ip, o):
    if isinstance(o, Obj):
        return AttrDict(o)
    return ip.unk('vars')


@ext('builtins.open builtins.eval builtins.exec builtins.input builtins.locals builtins.dir', '*')
def b_open(ip, rest=()):
    ip.event('io', 'builtin')
    ip.taint('builtin io')
    return ip.unk('builtin io')


@_varcall('builtins.__import__')
def b_import(ip, args, kw):
    nm = args[0] if args else kw.get('name')
    if not isinstance(nm, str):
        ip.taint('__import__')
        return ip.unk('__import__')
    v = ip.import_name(nm)
    return v if len(args) > 3 and args[3] or kw.get('fromlist') else ip.import_name(nm.split('.')[0])


@_varcall('importlib.import_module')
def i_module(ip, args, kw):
    nm = args[0] if args else kw.get('name')
    pk = args[1] if len(args) > 1 else kw.get('package')
    if isinstance(nm, str) and nm.startswith('.') and isinstance(pk, str):
        up = len(nm) - len(nm.lstrip('.'))
        parts = pk.split('.')
        nm = '.'.join(parts[:len(parts) - up + 1] + [x for x in [nm[up:]] if x])
    if not isinstance(nm, str) or nm.startswith('.'):
        ip.taint('import_module')
        return ip.unk('import_module')
    return ip.import_name(nm)


@_varcall('builtins.globals')
def b_globals(ip, args, kw):
    return GlobalsV(ip.frames[-1].module)


# ------------------------------------------------------------------ stdlib
def _dotted(prefix, names, sig):
    return ' '.join(prefix + n for n in names.split()), sig


for _o, _nm in (('Add', 'add iadd'), ('Sub', 'sub isub'), ('Mult', 'mul imul'), ('Div', 'truediv itruediv'),
                ('Pow', 'pow'), ('Mod', 'mod'), ('FloorDiv', 'floordiv'), ('MatMult', 'matmul')):
    for _x in _nm.split():
        EXT['operator.' + _x] = ([('a', REQ), ('b', REQ)], (lambda o: lambda ip, a, b: binop(ip, o, a, b))(_o))
for _o, _nm in (('Lt', 'lt'), ('LtE', 'le'), ('Gt', 'gt'), ('GtE', 'ge'), ('Eq', 'eq'), ('NotEq', 'ne'), ('Is', 'is_'), ('IsNot', 'is_not')):
    EXT['operator.' + _nm] = ([('a', REQ), ('b', REQ)], (lambda o: lambda ip, a, b: compare(ip, o, a, b))(_o))
EXT['operator.not_'] = ([('a', REQ)], lambda ip, a: not ip.truth(a))
EXT['operator.neg'] = ([('a', REQ)], lambda ip, a: unop(ip, 'USub', a))
EXT['operator.getitem'] = ([('a', REQ), ('b', REQ)], lambda ip, a, b: getitem(ip, a, b))


@_varcall('operator.attrgetter')
def op_attrgetter(ip, args, kw):
    def f(ip_, a, k):
        o = a[0]
        vals = []
        for n in args:
            v = o
            for part in n.split('.'):
                v = ip_.getattr(v, part)
            vals.append(v)
        return vals[0] if len(vals) == 1 else tuple(vals)
    return Native('attrgetter', f)


@_varcall('operator.itemgetter')
def op_itemgetter(ip, args, kw):
    def f(ip_, a, k):
        vals = [getitem(ip_, a[0], x) for x in args]
        return vals[0] if len(vals) == 1 else tuple(vals)
    return Native('itemgetter', f)


@_varcall('operator.methodcaller')
def op_methodcaller(ip, args, kw):
    return Native('methodcaller', lambda ip_, a, k: ip_.call(ip_.getattr(a[0], args[0]), args[1:], kw))


@ext('copy.copy', 'x')
def c_copy(ip, x):
    if isinstance(x, PList):
        return PList(segs=x.segs, kind=x.kind)
    if isinstance(x, PDict):
        d = PDict()
        d.s['ents'] = x.ents
        return d
    if isinstance(x, Arr):
        r = Arr(x.shape, body_of(x), x.dt, x.fmt)
        r.rav = x.rav
        return r
    if isinstance(x, Obj):
        f = ip.lookup(x.cls, '__copy__')
        if f is not None:
            return ip.call(Bound(f, x), [])
        r = Obj(x.cls, x.info)
        r.s.update(x.s)
        return r
    return x


@ext('copy.deepcopy', 'x memo=None')
def c_deepcopy(ip, x, memo):
    return deep_copy(ip, x, {})


def deep_copy(ip, x, memo):
    if isinstance(x, tuple):
        return tuple(deep_copy(ip, y, memo) for y in x)
    if id(x) in memo:
        return memo[id(x)][0]
    if isinstance(x, Arr):
        r = Arr(x.shape, body_of(x), x.dt, x.fmt)
        r.rav = x.rav
    elif isinstance(x, PList):
        r = PList(kind=x.kind)
        memo[id(x)] = (r, x)
        r.s['segs'] = tuple(g if isinstance(g, AccSeg) else Seg(g.vars, g.cond, deep_copy(ip, g.val, memo)) for g in x.segs)
        return r
    elif isinstance(x, PDict):
        r = PDict()
        memo[id(x)] = (r, x)
        r.s['ents'] = tuple(Ent(e.vars, e.cond, e.key, deep_copy(ip, e.val, memo), e.weak) for e in x.ents)
        return r
    elif isinstance(x, Obj):
        f = ip.lookup(x.cls, '__deepcopy__')
        if f is not None and isinstance(f, Func):
            return ip.call(Bound(f, x), [PDict()])
        r = Obj(x.cls, x.info)
        memo[id(x)] = (r, x)
        for k, v in x.s.items():
            r.s[k] = deep_copy(ip, v, memo)
        return r
    elif isinstance(x, Bound):
        return Bound(x.func, deep_copy(ip, x.self_, memo))
    else:
        return x
    memo[id(x)] = (r, x)
    return r


@ext('warnings.warn', 'message category=None stacklevel=1 source=None skip_file_prefixes=None')
def w_warn(ip, message, category, stacklevel, source, skip_file_prefixes):
    if category is None:
        category = message.cls if isinstance(message, Obj) else TYPES['UserWarning']
    if isinstance(category, Ext):
        category = ext_type(ip, category) or category
    if isinstance(category, TypeV) and not category.issub(TYPES['Warning']):
        ip.throw('TypeError', 'category must be a Warning subclass')
    ip.event('warn', category, message if isinstance(message, (str, StrV)) else None)


@ext('warnings.warn_explicit', 'message category filename lineno')
def w_warn_explicit(ip, message, category, filename, lineno):
    ip.event('warn', category, message)


@ext('warnings.simplefilter warnings.filterwarnings warnings.resetwarnings numpy.seterr numpy.set_printoptions numpy.seterrcall', '*')
def w_filter(ip, rest=()):
    ip.event('global-setting', 'warnings/numpy')


for _n in ('warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings', 'numpy.seterr', 'numpy.set_printoptions'):
    VARARGS[_n] = lambda ip, a, k: ip.event('global-setting', 'warnings/numpy') and None
VARARGS['numpy.errstate'] = lambda ip, a, k: Opq(('errstate',), None)
VARARGS['numpy.printoptions'] = lambda ip, a, k: Opq(('printoptions',), None)
VARARGS['contextlib.suppress'] = lambda ip, a, k: Opq(('suppress', tuple(a)), None)
VARARGS['contextlib.nullcontext'] = lambda ip, a, k: a[0] if a else None
for _n in ('traceback.print_exc', 'traceback.format_exc', 'traceback.print_stack'):
    VARARGS[_n] = lambda ip, a, k: (ip.event('print'), '')[1]
for _n in ('logging.getLogger',):
    VARARGS[_n] = lambda ip, a, k: Opq(('logger',), None)


@ext('abc.abstractmethod', 'f')
def abc_abstract(ip, f):
    if isinstance(f, Prop):
        f.abstract = True
    elif isinstance(f, (Func,)):
        f.abstract = True
    return f


VARARGS['functools.wraps'] = lambda ip, a, k: Native('wraps', lambda ip_, b, kk: b[0])


def memoised(ip, f, size=True):
    """functools.lru_cache: results by the arguments of the call, kept for good."""
    memo = PDict()

    def flat(v):
        if isinstance(v, (PList, PDict, Arr)):
            ip.throw('TypeError', 'unhashable type')
        if isinstance(v, tuple):
            for x in v:
                flat(x)

    def call_(ip_, args, kw):
        key = tuple(args)
        if kw:
            key += (('kwargs',),) + tuple((k, v) for k, v in kw.items())
        flat(key)
        if any(isinstance(x, Unk) for x in key):
            ip_.taint('unknown argument of a memoised function')
            return ip_.call(f, args, kw)
        if not size:
            return ip_.call(f, args, kw)
        from .models import dict_get
        r = dict_get(ip_, memo, key)
        if r is not MISSING:
            return r
        r = ip_.call(f, args, kw)
        setitem(ip_, memo, key, r)
        return r
    w = Native('memoised ' + getattr(f, 'name', 'function'), call_)
    w.method = True
    w.wrapped = f
    w.memo = memo
    return w


def lru_cache(ip, a, k):
    if a and not isinstance(a[0], (int, float, Sc)) and a[0] is not None:
        return memoised(ip, a[0])
    size = a[0] if a else k.get('maxsize', 128)
    return Native('lru_cache', lambda ip_, b, kk: memoised(ip_, b[0], size != 0))


VARARGS['functools.lru_cache'] = lru_cache
VARARGS['functools.cached_property'] = lambda ip, a, k: CachedProp(a[0])
VARARGS['functools.cache'] = lambda ip, a, k: memoised(ip, a[0])
EXT['functools.update_wrapper'] = ([('a', REQ), ('b', REQ)], lambda ip, a, b: a)
VARARGS['typing.cast'] = lambda ip, a, k: a[1]
VARARGS['typing.TypeVar'] = lambda ip, a, k: Opq(('typevar',), None)


def sig_params(ip, f):
    """Parameter list [(name, kind, has_default)] or None."""
    drop = 0
    if isinstance(f, Bound):
        f, drop = f.func, 1
    if isinstance(f, Obj):
        c = ip.lookup(f.cls, '__call__')
        if c is None:
            return None
        f, drop = c, 1
    if isinstance(f, ClassV):
        c = ip.lookup(f, '__init__')
        if not isinstance(c, Func):
            return None
        f, drop = c, 1
    if not isinstance(f, Func):
        return getattr(f, 'params', None)
    a = f.node.args
    ps = [(x.arg, 'pos') for x in a.posonlyargs + a.args]
    if a.vararg:
        ps.append((a.vararg.arg, 'var'))
    ps += [(x.arg, 'kw') for x in a.kwonlyargs]
    if a.kwarg:
        ps.append((a.kwarg.arg, 'varkw'))
    return ps[drop:]


@ext('inspect.signature', 'f')
def i_signature(ip, f):
    if isinstance(f, Opq):
        o = Opq(('signature', f.key), None)
        return o
    ps = sig_params(ip, f)
    if ps is None:
        return ip.unk('signature')
    o = Obj(TYPES['object'], ('signature',))
    o.s['parameters'] = PDict([(n, Opq(('param', n), None)) for n, _ in ps])
    return o


@_varcall('itertools.product')
def it_product(ip, args, kw):
    rep = kw.get('repeat', 1)
    ls = []
    for a in args:
        s = iterate(ip, a)
        if s is None:
            return ip.unk('product')
        ls.append(s)
    ls = [clone_segs(s) for _ in range(rep if isinstance(rep, int) else 1) for s in ls]
    r = product_segs(ip, ls)
    return ip.unk('product') if r is None else PList(segs=r, kind='gen')


def it_comb(strict):
    def f(ip, iterable, r):
        segs = iterate(ip, iterable)
        if segs is None or r != 2:
            return ip.unk('combinations')
        if len(segs) == 1 and not isinstance(segs[0], AccSeg) and len(segs[0].vars) == 1 and segs[0].cond is True:
            a, b = clone_segs(segs)[0], clone_segs(segs)[0]
            (q, h), (r2, h2) = a.vars[0], b.vars[0]
            c = mk_lt(A(q) - A(r2)) if strict else mk_le(A(q) - A(r2))
            return PList(segs=[Seg([(q, h), (r2, h2)], c, (a.val, b.val))], kind='gen')
        c = PList(segs=segs).concrete()
        if c is None:
            return ip.unk('combinations')
        return PList([(c[i], c[j]) for i in range(len(c)) for j in range(i + (1 if strict else 0), len(c))], kind='gen')
    return f


EXT['itertools.combinations'] = ([('iterable', REQ), ('r', REQ)], it_comb(True))
EXT['itertools.combinations_with_replacement'] = ([('iterable', REQ), ('r', REQ)], it_comb(False))


@_varcall('itertools.chain')
def it_chain(ip, args, kw):
    out = []
    for a in args:
        s = iterate(ip, a)
        if s is None:
            return ip.unk('chain')
        out += clone_segs(s)
    return PList(segs=out, kind='gen')


@ext('itertools.starmap', 'f it')
def it_starmap(ip, f, it):
    segs = iterate(ip, it)
    if segs is None:
        return ip.unk('starmap')

    def g(v):
        a = ip.unpack(v)
        if a is None:
            raise GiveUp('starmap')
        return ip.call(f, a)
    return collect(ip, clone_segs(segs), g, 'gen')


@ext('itertools.repeat', 'x times=None')
def it_repeat(ip, x, times):
    if times is None:
        return ip.unk('repeat')
    q = fresh_q()
    return PList(segs=[Seg([(q, poly(times))], True, x)], kind='gen')


@ext('math.sqrt', 'x')
def m_sqrt(ip, x):
    return np_un(ip, 'sqrt', x)


@_varcall('math.prod')
def m_prod(ip, args, kw):
    a = args[0]
    c = list(a) if isinstance(a, tuple) else (a.concrete() if isinstance(a, PList) else None)
    if c is None:
        return np_prod(ip, a)
    r = 1
    for x in c:
        r = binop(ip, 'Mult', r, x)
    return r


EXT['math.pow'] = ([('a', REQ), ('b', REQ)], lambda ip, a, b: binop(ip, 'Pow', t_float(ip, [a], {}), b))
EXT['math.fsum'] = ([('it', REQ)], lambda ip, it: b_sum(ip, it, 0))
EXT['math.floor'] = ([('x', REQ)], lambda ip, x: mkS(poly(x) if is_int(poly(x)) else fn('floor', poly(x)), 'int') if isnum(x) else ip.unk('floor'))


# ------------------------------------------------------------------ numpy
def np_un(ip, name, x):
    f = UN[name]
    ty = 'npfloat'
    if isinstance(x, (int, Bo)) and name in ('abs', 'negative', 'square', 'sign'):
        ty = 'npint'
    dt = None
    x = as_arrayish(ip, x)
    if isinstance(x, (Arr, RegArr)) and name in ('abs', 'negative', 'square', 'sign', 'conj') and x.dt.name != 'bool':
        dt = x.dt
    if isinstance(x, Opq):
        x = Sc(A(('opq', x.key)), 'float')
    return map1(ip, f, x, ty, dt)


UN = {'exp': lambda p: fn('exp', p), 'log': lambda p: fn('log', p), 'tanh': lambda p: fn('tanh', p),
      'sqrt': lambda p: power(p, F(1, 2)), 'abs': lambda p: fn('abs', p), 'square': lambda p: p * p,
      'reciprocal': lambda p: M.safe_div(ONE, p), 'negative': lambda p: -p, 'positive': lambda p: p,
      'conj': lambda p: p, 'real': lambda p: p}
for _n in 'sign log1p expm1 sin cos tan cosh sinh arctan log2 log10 exp2 floor ceil rint trunc cbrt'.split():
    UN[_n] = (lambda n: lambda p: fn(n, p))(_n)
UN['expm1'] = lambda p: fn('exp', p) - ONE
UN['log1p'] = lambda p: fn('log', p + ONE)
for _n in UN:
    EXT['numpy.' + _n] = ([('x', REQ), ('out', None), ('where', True), ('dtype', None)],
                          (lambda n: lambda ip, x, dtype=None, where=True: np_un(ip, n, x) if where is True else ip.unk('where='))(_n))
for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('power', 'Pow'),
               ('float_power', 'Pow'), ('mod', 'Mod'), ('remainder', 'Mod'), ('floor_divide', 'FloorDiv')):
    def _mk(o):
        def f(ip, a, b, dtype=None, where=True):
            a2, b2 = as_arrayish(ip, a), as_arrayish(ip, b)
            if where is not True:
                return ip.unk('where=')
            r = binop(ip, o, npnum(a2), npnum(b2))
            return r
        return f
    EXT['numpy.' + _n] = ([('a', REQ), ('b', REQ), ('out', None), ('where', True), ('dtype', None)], _mk(_o))
for _n, _o in (('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE'), ('equal', 'Eq'), ('not_equal', 'NotEq')):
    EXT['numpy.' + _n] = ([('a', REQ), ('b', REQ), ('out', None)],
                          (lambda o: lambda ip, a, b: compare(ip, o, npnum(as_arrayish(ip, a)), npnum(as_arrayish(ip, b))))(_o))


def npnum(v):
    """Python numbers become numpy scalars in ufuncs (no ZeroDivisionError)."""
    if isinstance(v, bool) or isinstance(v, Bo):
        return v
    if isinstance(v, int):
        return Sc(P(v), 'npint')
    if isinstance(v, Sc):
        return Sc(v.p, {'int': 'npint', 'float': 'npfloat'}.get(v.ty, v.ty))
    if isinstance(v, Arr) and v.ndim == 0:
        return Sc(nbody(v), 'npint' if v.dt.name.startswith('int') else 'npfloat')
    return v


def np_bin(name):
    def f(ip, a, b):
        a, b = as_arrayish(ip, a), as_arrayish(ip, b)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return a if isinstance(a, Unk) else b
        if isinstance(a, Opq):
            a = Sc(A(('opq', a.key)), 'float')
        if isinstance(b, Opq):
            b = Sc(A(('opq', b.key)), 'float')
        for v in (a, b):
            if v is None or isinstance(v, (str, StrV, PDict)) or (isinstance(v, Arr) and v.dt.name == 'str_'):
                ip.throw('TypeError', 'ufunc not supported for the input types')
        g = lambda x, y: fn(name, x, y)
        if anyarr(a, b):
            return elem(ip, g, [a, b], Dt(promote(num_dt(a), num_dt(b))))
        if isnum(a) and isnum(b):
            return Sc(g(poly(a), poly(b)), 'npint' if isintty(tyof(a)) and isintty(tyof(b)) else 'npfloat')
        return ip.unk(name)
    return f


for _n, _g in (('maximum', 'max'), ('minimum', 'min'), ('fmax', 'max'), ('fmin', 'min'), ('hypot', 'hypot'), ('arctan2', 'arctan2')):
    EXT['numpy.' + _n] = ([('a', REQ), ('b', REQ), ('out', None)], np_bin(_g))


@ext('numpy.clip', 'a a_min=None a_max=None out=None')
def np_clip(ip, a, a_min, a_max):
    r = a
    if a_min is not None:
        r = np_bin('max')(ip, r, a_min)
    if a_max is not None:
        r = np_bin('min')(ip, r, a_max)
    return r


def isdt_num(a):
    return not (a.dt.name in ('str_', 'object') )


def np_pred(ip, f, x, name):
    x = as_arrayish(ip, x)
    if isinstance(x, Unk):
        return x
    if isinstance(x, (Arr, RegArr)):
        if x.dt.name in ('str_', 'object') or x.dt.bad:
            ip.throw('TypeError', 'ufunc %s not supported for the input types' % name)
        if isinstance(x, Arr) and x.fmt == 'lil':
            ip.throw('TypeError', 'ufunc %s not supported for sparse' % name)
        if x.dt.name == 'bool' or x.dt.name.startswith('int'):
            return elem(ip, lambda p: f(ZERO), [x], B1)
        return elem(ip, lambda p: f(p), [x], B1)
    if isinstance(x, bool) or isinstance(x, (int, Bo)):
        return boolv(f(ZERO), True)
    if isinstance(x, Sc):
        return boolv(f(ZERO if isintty(x.ty) else x.p), True)
    if isinstance(x, Opq) and x.ty is None:
        return Bo(('p', name, x.key), True)
    ip.throw('TypeError', 'ufunc %s not supported for the input types' % name)


def pred(name):
    """Non-finiteness predicates pushed through exact case distinctions."""
    def f(p):
        return push_pred(name, p)
    return f


def push_pred(name, p, depth=0):
    if depth < 6:
        for a in sorted(p.atoms(), key=rk):
            if a[0] == 'ind':
                t = drop_ind(p, a, True)
                e = drop_ind(p, a, False)
                return mk_or(mk_and(a[1], push_pred(name, t, depth + 1)),
                             mk_and(mk_not(a[1]), push_pred(name, e, depth + 1)))
    return mk_pred(name, p)


def drop_ind(p, atom, val):
    from .terms import _simp
    return _simp(p, {atom: ONE if val else ZERO})


EXT['numpy.isnan'] = ([('x', REQ), ('out', None)], lambda ip, x: np_pred(ip, pred('isnan'), x, 'isnan'))
EXT['numpy.isfinite'] = ([('x', REQ), ('out', None)], lambda ip, x: np_pred(ip, lambda p: mk_not(push_pred('notfinite', p)), x, 'isfinite'))
EXT['numpy.isinf'] = ([('x', REQ), ('out', None)], lambda ip, x: np_pred(
    ip, lambda p: mk_and(push_pred('notfinite', p), mk_not(push_pred('isnan', p))), x, 'isinf'))


@ext('numpy.isreal numpy.isrealobj', 'x')
def np_isreal(ip, x):
    x = as_arrayish(ip, x)
    if isinstance(x, Arr):
        if x.dt.name == 'complex128':
            b = body_of(x)
            return Arr(x.shape, mk_eq(fn('imag', b)), B1) if isinstance(b, Poly) else ip.unk('isreal')
        return Arr(x.shape, True, B1)
    if isnum(x):
        return True if tyof(x) != 'complex' else Bo(('p', 'isreal', vkey(x)))
    return ip.unk('isreal')


@ext('numpy.iscomplexobj', 'x')
def np_iscomplexobj(ip, x):
    x = as_arrayish(ip, x)
    return isinstance(x, Arr) and x.dt.name == 'complex128' if not isinstance(x, Unk) else x


@ext('numpy.iscomplex', 'x')
def np_iscomplex(ip, x):
    r = np_isreal(ip, x)
    if isinstance(r, Arr):
        return elem(ip, lambda p: mk_not(M.unind(p)), [r], B1)
    return r if isinstance(r, Unk) else boolv(mk_not(cond_of(ip, r)))


def tolerances(ip, rtol, atol):
    return rtol, atol


def close_pred(rtol, atol):
    d = rtol is None and atol is None

    def f(x, y):
        if d:
            return mk_pred('close', x, y)
        if (x - y).is_zero():
            return True
        r, a = (rtol if rtol is not None else P(F(1, 10 ** 5))), (atol if atol is not None else P(F(1, 10 ** 8)))
        return ('p', 'closetol', x, y, r, a)
    return f


@ext('numpy.isclose', 'a b rtol=None atol=None equal_nan=False')
def np_isclose(ip, a, b, rtol, atol, equal_nan):
    a, b = npnum(as_arrayish(ip, a)), npnum(as_arrayish(ip, b))
    for v in (a, b):
        if isinstance(v, Unk):
            return v
        if v is None or isinstance(v, (str, StrV, PDict)) or (isinstance(v, Arr) and (v.dt.name in ('str_',) or v.dt.bad)):
            ip.throw('TypeError', 'isclose not supported for the input types')
    rt = poly(rtol) if rtol is not None and isnum(rtol) else None
    at = poly(atol) if atol is not None and isnum(atol) else None
    if rt is not None and rt.const() == F(1e-5) or rt is not None and rt == P(1e-5):
        rt = None
    if at is not None and at == P(1e-8):
        at = None
    f = close_pred(rt, at)
    if isinstance(a, Opq):
        a = Sc(A(('opq', a.key)), 'float')
    if anyarr(a, b):
        return elem(ip, lambda x, y: push2(f, x, y), [a, b], B1)
    if isnum(a) and isnum(b):
        return boolv(push2(f, poly(a), poly(b)), True)
    return ip.unk('isclose')


def push2(f, x, y):
    for a in sorted(x.atoms() | y.atoms(), key=rk):
        if a[0] == 'ind':
            t = push2(f, drop_ind(x, a, True), drop_ind(y, a, True))
            e = push2(f, drop_ind(x, a, False), drop_ind(y, a, False))
            return mk_or(mk_and(a[1], t), mk_and(mk_not(a[1]), e))
    return f(x, y)


@ext('numpy.allclose', 'a b rtol=None atol=None equal_nan=False')
def np_allclose(ip, a, b, rtol, atol, equal_nan):
    r = np_isclose(ip, a, b, rtol, atol, equal_nan)
    return _plain(np_all(ip, r)) if not isinstance(r, Unk) else r


@ext('math.isclose', 'a b rel_tol=None abs_tol=None')
def m_isclose(ip, a, b, rel_tol, abs_tol):
    if isnum(a) and isnum(b):
        return boolv(('p', 'mathclose') + tuple(sorted((poly(a), poly(b)), key=rk)) + (vkey(rel_tol), vkey(abs_tol)))
    return ip.unk('math.isclose')


@ext('numpy.array_equal', 'a b equal_nan=False')
def np_array_equal(ip, a, b, equal_nan):
    a, b = to_array(ip, a), to_array(ip, b)
    if not (isinstance(a, Arr) and isinstance(b, Arr)):
        return ip.unk('array_equal')
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not ip.decide(mk_eq(x - y)):
            return False
    return _plain(np_all(ip, compare(ip, 'Eq', a, b)))


def redsig(f):
    return ([('a', REQ), ('axis', None), ('dtype', None), ('out', None), ('keepdims', False)], f)


EXT['numpy.sum'] = redsig(lambda ip, a, axis, dtype, keepdims: np_sum(ip, a, axis, keepdims))
EXT['numpy.prod'] = redsig(lambda ip, a, axis, dtype, keepdims: np_prod(ip, a, axis, keepdims))
EXT['numpy.any'] = ([('a', REQ), ('axis', None), ('out', None), ('keepdims', False)], lambda ip, a, axis, keepdims: np_any(ip, a, axis, keepdims))
EXT['numpy.all'] = ([('a', REQ), ('axis', None), ('out', None), ('keepdims', False)], lambda ip, a, axis, keepdims: np_all(ip, a, axis, keepdims))
EXT['numpy.max'] = ([('a', REQ), ('axis', None), ('out', None), ('keepdims', False)], lambda ip, a, axis, keepdims: minmax(ip, a, 'max', axis, keepdims))
EXT['numpy.min'] = ([('a', REQ), ('axis', None), ('out', None), ('keepdims', False)], lambda ip, a, axis, keepdims: minmax(ip, a, 'min', axis, keepdims))
EXT['numpy.ptp'] = ([('a', REQ), ('axis', None)], lambda ip, a, axis: binop(ip, 'Sub', minmax(ip, a, 'max', axis), minmax(ip, a, 'min', axis)))
EXT['numpy.argmax'] = ([('a', REQ), ('axis', None)], lambda ip, a, axis: np_arg(ip, a, 'argmax', axis))
EXT['numpy.argmin'] = ([('a', REQ), ('axis', None)], lambda ip, a, axis: np_arg(ip, a, 'argmin', axis))
EXT['numpy.nanmax'] = ([('a', REQ), ('axis', None)], lambda ip, a, axis: nanred(ip, a, 'max', axis))
EXT['numpy.nanmin'] = ([('a', REQ), ('axis', None)], lambda ip, a, axis: nanred(ip, a, 'min', axis))
EXT['numpy.nanargmax'] = ([('a', REQ), ('axis', None)], lambda ip, a, axis: np_arg(ip, a, 'nanargmax', axis))


def nanred(ip, a, name, axis):
    return minmax(ip, a, 'nan' + name, axis)


def np_mean(ip, a, axis=None, keepdims=False, **_):
    a = as_arrayish(ip, a)
    if isnum(a):
        return a
    if isinstance(a, RegArr):
        return ip.unk('mean of selection')
    if not isinstance(a, Arr):
        return ip.unk('mean')
    s = np_sum(ip, a, axis, keepdims)
    axes = M.reduce_axes(ip, a, axis)
    n = ONE
    for k in axes or range(a.ndim):
        n = n * a.shape[k]
    return binop(ip, 'Div', s, Sc(n, 'npfloat'))


EXT['numpy.mean'] = redsig(lambda ip, a, axis, dtype, keepdims: np_mean(ip, a, axis, keepdims))


@ext('numpy.average', 'a axis=None weights=None returned=False')
def np_average(ip, a, axis, weights, returned):
    if weights is None:
        return np_mean(ip, a, axis)
    a, w = as_arrayish(ip, a), as_arrayish(ip, weights)
    if isinstance(a, Arr) and isinstance(w, Arr) and w.ndim == 1 and axis == 0:
        if not ip.decide(mk_eq(w.shape[0] - a.shape[0])):
            ip.throw('ValueError', 'Length of weights not compatible with specified axis')
        wb = Arr(tuple([w.shape[0]] + [ONE] * (a.ndim - 1)), nbody(w), w.dt)
        return binop(ip, 'Div', np_sum(ip, binop(ip, 'Mult', a, wb), 0), np_sum(ip, w))
    return ip.unk('average')


@ext('numpy.nansum', 'a axis=None')
def np_nansum(ip, a, axis):
    a = as_arrayish(ip, a)
    if isinstance(a, (Arr, RegArr)):
        b = elem(ip, lambda x: nanzero(x), [a], a.dt)
        return np_sum(ip, b, axis)
    return ip.unk('nansum')


def nanzero(x):
    """x, with 0/0 (nan) counted as zero."""
    return fn('nanzero', x) if x.const() is None else x


@ext('numpy.nan_to_num', 'x copy=True nan=None posinf=None neginf=None')
def np_nan_to_num(ip, x, copy, nan, posinf, neginf):
    r = map1(ip, lambda p: fn('nan_to_num', p), x)
    if copy is False and isinstance(x, Arr) and isinstance(r, Arr):
        arr_write_all(ip, x, r)
        return x
    return r


EXT['numpy.dot'] = ([('a', REQ), ('b', REQ), ('out', None)], lambda ip, a, b: dot(ip, a, b))
EXT['numpy.matmul'] = ([('a', REQ), ('b', REQ), ('out', None)], lambda ip, a, b: matmul(ip, a, b))


@ext('numpy.linalg.multi_dot', 'arrays')
def np_multi_dot(ip, arrays):
    c = list(arrays) if isinstance(arrays, tuple) else arrays.concrete()
    r = c[0]
    for x in c[1:]:
        r = dot(ip, r, x)
    return r


@ext('numpy.outer', 'a b out=None')
def np_outer(ip, a, b):
    a, b = ravel(ip, to_array(ip, a)), ravel(ip, to_array(ip, b))
    if not (isinstance(a, Arr) and isinstance(b, Arr)):
        return ip.unk('outer')
    if 'str_' in (a.dt.name, b.dt.name):
        ip.throw('TypeError', 'cannot multiply strings')
    x = Arr((a.shape[0], ONE), nbody(a), a.dt)
    y = Arr((ONE, b.shape[0]), subst(nbody(b), {('i', 0): I(1)}), b.dt)
    return binop(ip, 'Mult', x, y)


@ext('numpy.inner numpy.vdot', 'a b')
def np_inner(ip, a, b):
    a, b = as_arrayish(ip, a), as_arrayish(ip, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == 1 and b.ndim == 1:
        return dot(ip, a, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == 2 and b.ndim == 2:
        return dot(ip, ravel(ip, a), ravel(ip, b)) if False else inner2(ip, a, b)
    return ip.unk('inner')


def inner2(ip, a, b):
    return dot(ip, a, transpose(ip, b))


@ext('numpy.vdot', 'a b')
def np_vdot(ip, a, b):
    a, b = as_arrayish(ip, a), as_arrayish(ip, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
        return np_sum(ip, binop(ip, 'Mult', a, b))
    return ip.unk('vdot')


@_varcall('numpy.einsum')
def np_einsum(ip, args, kw):
    s = args[0]
    ops = [as_arrayish(ip, a) for a in args[1:]]
    if not isinstance(s, str) or not all(isinstance(a, Arr) for a in ops) or '.' in s:
        return ip.unk('einsum')
    s = s.replace(' ', '')
    if '->' in s:
        ins, out = s.split('->')
    else:
        ins = s
        out = ''.join(sorted(c for c in set(ins) - {','} if ins.count(c) == 1))
    ins = ins.split(',')
    if len(ins) != len(ops) or any(len(x) != a.ndim for x, a in zip(ins, ops)):
        ip.throw('ValueError', 'einstein sum subscripts mismatch')
    dims = {}
    for x, a in zip(ins, ops):
        for c, d in zip(x, a.shape):
            if c in dims:
                if not ip.decide(mk_eq(dims[c] - d)):
                    ip.throw('ValueError', 'operands could not be broadcast')
            else:
                dims[c] = d
    var = {c: I(k) for k, c in enumerate(out)}
    vs = []
    for c in dims:
        if c not in var:
            q = fresh_q()
            var[c] = A(q)
            vs.append((q, dims[c]))
    body = ONE
    for x, a in zip(ins, ops):
        body = body * subst(nbody(a), {('i', k): var[c] for k, c in enumerate(x)})
    r = mk_sum(vs, body)
    if not out:
        return Sc(r, 'npfloat')
    return Arr([dims[c] for c in out], r, Dt(promote(*[a.dt.name for a in ops])))


@ext('numpy.tensordot', 'a b axes=2')
def np_tensordot(ip, a, b, axes):
    a, b = as_arrayish(ip, a), as_arrayish(ip, b)
    if not (isinstance(a, Arr) and isinstance(b, Arr)):
        return ip.unk('tensordot')
    if isinstance(axes, int):
        ax = list(range(a.ndim - axes, a.ndim))
        bx = list(range(axes))
    else:
        p = list(axes) if isinstance(axes, tuple) else axes.concrete()
        tolist = lambda z: [z] if isinstance(z, int) else (list(z) if isinstance(z, tuple) else z.concrete())
        ax, bx = tolist(p[0]), tolist(p[1])
    ax = [x % a.ndim for x in ax]
    bx = [x % b.ndim for x in bx]
    L = 'abcdefghijklmnop'
    sa = [None] * a.ndim
    sb = [None] * b.ndim
    n = 0
    for x, y in zip(ax, bx):
        sa[x] = sb[y] = L[n]
        n += 1
    out = ''
    for z in (sa, sb):
        for k in range(len(z)):
            if z[k] is None:
                z[k] = L[n]
                out += L[n]
                n += 1
    return np_einsum(ip, [''.join(sa) + ',' + ''.join(sb) + '->' + out, a, b], {})


@ext('numpy.trace', 'a')
def np_trace(ip, a):
    a = as_arrayish(ip, a)
    return np_sum(ip, diagonal(ip, a)) if isinstance(a, Arr) else ip.unk('trace')


def diagonal(ip, a):
    if a.ndim != 2:
        ip.throw('ValueError', 'diag requires an array of at least two dimensions')
    n = a.shape[0]
    if a.shape[0] != a.shape[1]:
        if not ip.decide(mk_le(a.shape[0] - a.shape[1])):
            n = a.shape[1]
    return Arr((n,), subst(nbody(a), {('i', 0): I(0), ('i', 1): I(0)}), a.dt)


@ext('numpy.diag numpy.diagonal', 'a k=0')
def np_diag(ip, a, k):
    a = as_arrayish(ip, a)
    if not isinstance(a, Arr) or k != 0:
        return ip.unk('diag')
    if a.ndim == 1:
        return np_diagflat(ip, a, 0)
    return diagonal(ip, a)


@ext('numpy.diagflat', 'v k=0')
def np_diagflat(ip, v, k):
    v = as_arrayish(ip, v)
    if isinstance(v, Arr) and v.ndim == 2:
        v = ravel(ip, v)
    if not isinstance(v, Arr) or v.ndim != 1 or k != 0:
        return ip.unk('diagflat')
    n = v.shape[0]
    return Arr((n, n), ite(mk_eq(I(0) - I(1)), nbody(v), ZERO), v.dt)


def getshape(ip, s):
    if isnum(s):
        return (poly(s),)
    if isinstance(s, PList):
        s = s.concrete()
        s = tuple(s) if s is not None else None
    if isinstance(s, tuple):
        for x in s:
            if isinstance(x, Unk) or isinstance(x, Opq):
                return None
            if not is_intlike(x) and not isinstance(x, (bool, int)):
                ip.throw('TypeError', "'%s' object cannot be interpreted as an integer" % (getattr(vtype(ip, x), 'name', '?')))
        return tuple(poly(x) for x in s)
    if isinstance(s, (Unk, Opq)):
        return None
    ip.throw('TypeError', 'expected a sequence of integers or a single integer')


def np_const(val):
    def f(ip, shape, dtype=None, order=None):
        s = getshape(ip, shape)
        if s is None:
            return ip.unk('shape')
        d = mkdtype(ip, dtype) or F8
        v = val
        if v is None:
            v = mk_idx(('uninit', len(ip.journal)), tuple(I(k) for k in range(len(s))))
        return Arr(s, cast_body(ip, v, F8, d), d)
    return f


for _n, _v in (('zeros', ZERO), ('ones', ONE), ('empty', None)):
    EXT['numpy.' + _n] = ([('shape', REQ), ('dtype', None), ('order', None)], np_const(_v))


@ext('numpy.full', 'shape fill_value dtype=None order=None')
def np_full(ip, shape, fill_value, dtype, order):
    s = getshape(ip, shape)
    if s is None:
        return ip.unk('shape')
    if isinstance(fill_value, Arr):
        d = mkdtype(ip, dtype) if dtype is not None else fill_value.dt
        base = Arr(s, ZERO, d)
        arr_setitem(ip, base, Ext('builtins.Ellipsis'), fill_value)
        return base
    if isinstance(fill_value, Opq):
        fill_value = Sc(A(('opq', fill_value.key)), 'float')
    if not isnum(fill_value):
        if isinstance(fill_value, Unk):
            return fill_value
        return ip.unk('np.full')
    d = mkdtype(ip, dtype) if dtype is not None else Dt(scalar_dt(fill_value))
    if d is None:
        return ip.unk('dtype')
    b = poly(fill_value)
    if dtype is not None and isintty(tyof(fill_value)) is False and (d.name.startswith('int')) and b == NAN:
        ip.throw('ValueError', 'cannot convert float NaN to integer')
    b = cast_body(ip, b, Dt(scalar_dt(fill_value)), d)
    return Arr(s, b, d)


def np_like(val):
    def f(ip, a, dtype=None, shape=None, fill_value=None):
        a = as_arrayish(ip, a)
        if not isinstance(a, Arr):
            return Sc(val if val is not None else poly(fill_value), 'npfloat') if isnum(a) else ip.unk('like')
        d = mkdtype(ip, dtype) if dtype is not None else a.dt
        s = a.shape if shape is None else getshape(ip, shape)
        v = val
        if fill_value is not None:
            if not isnum(fill_value):
                return ip.unk('full_like')
            v = poly(fill_value)
        elif v is None:
            v = mk_idx(('uninit', len(ip.journal)), tuple(I(k) for k in range(len(s))))
        return Arr(s, cast_body(ip, v, F8 if fill_value is None else Dt(scalar_dt(fill_value)), d), d)
    return f


for _n, _v in (('zeros_like', ZERO), ('ones_like', ONE), ('empty_like', None)):
    EXT['numpy.' + _n] = ([('a', REQ), ('dtype', None), ('shape', None)], np_like(_v))
EXT['numpy.full_like'] = ([('a', REQ), ('fill_value', REQ), ('dtype', None), ('shape', None)], np_like(None))


@ext('numpy.eye', 'N M=None k=0 dtype=None')
def np_eye(ip, N, M, k, dtype):
    if k != 0:
        return ip.unk('eye')
    n = poly(N)
    m = n if M is None else poly(M)
    return Arr((n, m), ind(mk_eq(I(0) - I(1))), mkdtype(ip, dtype) or F8)


@ext('numpy.identity', 'n dtype=None')
def np_identity(ip, n, dtype):
    return np_eye(ip, n, None, 0, dtype)


@_varcall('numpy.arange')
def np_arange(ip, args, kw):
    r = py_range(ip, args) if all(is_intlike(a) for a in args) else ip.unk('arange')
    if isinstance(r, Unk):
        return r
    d = kw.get('dtype')
    return to_array(ip, PList(segs=r.segs), mkdtype(ip, d) if d is not None else (I8 if not r.segs else None))


@ext('numpy.array', 'o dtype=None copy=True order=None subok=False ndmin=0')
def np_array(ip, o, dtype, copy, order, subok, ndmin):
    d = mkdtype(ip, dtype) if dtype is not None else None
    r = to_array(ip, o, d, copy is not False)
    if isinstance(ndmin, int) and ndmin and isinstance(r, Arr) and r.ndim < ndmin:
        k = ndmin - r.ndim
        r = Arr((ONE,) * k + r.shape, bsub(body_of(r), {('i', j): I(j + k) for j in range(r.ndim)}), r.dt)
    return r


@ext('numpy.asarray numpy.asanyarray numpy.ascontiguousarray numpy.asfarray numpy.asarray_chkfinite', 'o dtype=None order=None copy=None')
def np_asarray(ip, o, dtype, order, copy):
    d = mkdtype(ip, dtype) if dtype is not None else None
    if isinstance(o, Arr) and o.fmt == 'matrix' and d is None:
        return Arr(o.shape, None, o.dt, 'nd', base=o, vmap=tuple(I(k) for k in range(o.ndim)))
    return to_array(ip, o, d, copy is True)


@ext('numpy.copy', 'o')
def np_copy(ip, o):
    return to_array(ip, o, None, True)


@ext('numpy.fromiter', 'it dtype count=-1')
def np_fromiter(ip, it, dtype, count):
    segs = iterate(ip, it)
    if segs is None:
        return ip.unk('fromiter')
    return to_array(ip, PList(segs=segs), mkdtype(ip, dtype))


@ext('numpy.issubdtype', 'a b')
def np_issubdtype(ip, a, b):
    if isinstance(a, Opq):
        if isinstance(a.key, tuple) and a.key[0] == 'typeof':
            return Bo(('p', 'typesub', a.key, vkey(b)))
        return Bo(('p', 'issubdtype', a.key, vkey(b)))
    if isinstance(a, Unk) or isinstance(b, Unk):
        return a if isinstance(a, Unk) else b
    na = dtname(ip, a)
    nb = dtname(ip, b)
    if na is None or nb is None:
        if a is None:
            na = 'float64'
        else:
            ip.throw('TypeError', 'data type not understood')
    return issubdt(na, nb)


@ext('numpy.dtype', 'x')
def np_dtype(ip, x):
    r = mkdtype(ip, x)
    return ip.unk('dtype') if r is None else r


@ext('numpy.can_cast numpy.result_type numpy.promote_types numpy.min_scalar_type', '*')
def np_cast_q(ip, rest=()):
    return ip.unk('dtype query')


@ext('numpy.finfo', 'd')
def np_finfo(ip, d):
    o = Obj(TYPES['object'], ('finfo',))
    n = dtname(ip, d if not isnum(d) else T('float'))
    sfx = '' if n in ('float64', None) else n
    for k in ('eps', 'tiny', 'max', 'min', 'resolution', 'smallest_normal'):
        o.s[k] = Sc(fn((k if k == 'eps' else 'finfo_' + k) + sfx), 'npfloat')
    return o


EXT['numpy.iinfo'] = ([('d', REQ)], lambda ip, d: ip.unk('iinfo'))


@ext('numpy.ndim', 'a')
def np_ndim(ip, a):
    a = as_arrayish(ip, a)
    return a.ndim if isinstance(a, Arr) else 0 if isnum(a) else ip.unk('ndim')


@ext('numpy.shape', 'a')
def np_shape(ip, a):
    a = as_arrayish(ip, a)
    return tuple(mkS(x, 'int') for x in a.shape) if isinstance(a, Arr) else () if isnum(a) else ip.unk('shape')


@ext('numpy.size', 'a axis=None')
def np_size(ip, a, axis):
    a = as_arrayish(ip, a)
    if isinstance(a, Arr):
        return size_of(a) if axis is None else mkS(a.shape[axis], 'int')
    return 1 if isnum(a) else ip.unk('size')


def size_of(a):
    n = ONE
    for x in a.shape:
        n = n * x
    return mkS(n, 'int')


@ext('numpy.isscalar', 'a')
def np_isscalar(ip, a):
    return isnum(a) or isinstance(a, (str, StrV))


@_varcall('numpy.where')
def np_where(ip, args, kw):
    if len(args) == 1:
        return np_nonzero(ip, args[0])
    c, x, y = [as_arrayish(ip, a) for a in args]
    for v in (c, x, y):
        if isinstance(v, Unk):
            return v
        if not anyarr(v) and not isnum(v):
            return ip.unk('where')
    if isinstance(c, (Arr, RegArr)) and c.dt.name != 'bool':
        return ip.unk('where on numbers')
    if not anyarr(c, x, y):
        return x if ip.truth(c) else y
    return elem(ip, lambda cc, a, b: ite(M.unind(cc), a, b), [c, x, y],
                Dt(promote(num_dt(x), num_dt(y))))


@ext('numpy.nonzero', 'a')
def np_nonzero(ip, a):
    a = as_arrayish(ip, a)
    if not isinstance(a, Arr) or a.ndim == 0:
        return ip.unk('nonzero')
    uid = fresh_q()[1]
    return tuple(TriIdx(a.shape, cbody(a), k, uid) for k in range(a.ndim))


@ext('numpy.count_nonzero', 'a axis=None')
def np_count_nonzero(ip, a, axis):
    a = as_arrayish(ip, a)
    if isinstance(a, Arr):
        return np_sum(ip, Arr(a.shape, cbody(a), B1), axis)
    return ip.unk('count_nonzero')


def tri_idx(name, ip, n, m, k):
    if not isnum(n) or not isnum(k) or (m is not None and not isnum(m)):
        return ip.unk('tri indices')
    h = poly(n)
    w = h if m is None else poly(m)
    kk = poly(k)
    c = mk_le(I(1) - I(0) - kk) if name == 'tril' else mk_le(I(0) - I(1) + kk)
    uid = fresh_q()[1]
    return tuple(TriIdx((h, w), c, j, uid) for j in range(2))


EXT['numpy.tril_indices'] = ([('n', REQ), ('k', 0), ('m', None)], lambda ip, n, k, m: tri_idx('tril', ip, n, m, k))
EXT['numpy.triu_indices'] = ([('n', REQ), ('k', 0), ('m', None)], lambda ip, n, k, m: tri_idx('triu', ip, n, m, k))


def tri_from(name):
    def f(ip, arr, k):
        a = as_arrayish(ip, arr)
        if not isinstance(a, Arr) or a.ndim != 2:
            return ip.unk('tri indices')
        return tri_idx(name, ip, Sc(a.shape[0], 'int'), Sc(a.shape[1], 'int'), k)
    return f


EXT['numpy.tril_indices_from'] = ([('arr', REQ), ('k', 0)], tri_from('tril'))
EXT['numpy.triu_indices_from'] = ([('arr', REQ), ('k', 0)], tri_from('triu'))


def tri_mask(name):
    def f(ip, a, k):
        a = as_arrayish(ip, a)
        if not isinstance(a, Arr) or a.ndim != 2 or not isnum(k):
            return ip.unk(name)
        c = mk_le(I(1) - I(0) - poly(k)) if name == 'tril' else mk_le(I(0) - I(1) + poly(k))
        return Arr(a.shape, ite(c, nbody(a), ZERO), a.dt)
    return f


EXT['numpy.tril'] = ([('a', REQ), ('k', 0)], tri_mask('tril'))
EXT['numpy.triu'] = ([('a', REQ), ('k', 0)], tri_mask('triu'))


@ext('numpy.diag_indices numpy.diag_indices_from', 'n ndim=2')
def np_diag_indices(ip, n, ndim):
    if isinstance(n, Arr):
        n = Sc(n.shape[0], 'int')
    h = poly(n)
    uid = fresh_q()[1]
    return tuple(TriIdx((h, h), mk_eq(I(0) - I(1)), j, uid) for j in range(2))


@ext('numpy.fill_diagonal', 'a val wrap=False')
def np_fill_diagonal(ip, a, val, wrap):
    if not isinstance(a, Arr) or a.ndim != 2:
        return ip.unk('fill_diagonal')
    if isnum(val):
        v = poly(val)
    elif isinstance(val, Arr) and val.ndim == 1:
        v = nbody(val)
    else:
        v = Unk('fill_diagonal')
    arr_write(ip, a, mk_eq(I(0) - I(1)), v)


@ext('numpy.copyto', 'dst src where=True')
def np_copyto(ip, dst, src, where=True):
    if isinstance(dst, Arr):
        if where is True:
            arr_setitem(ip, dst, Ext('builtins.Ellipsis'), src)
        else:
            arr_setitem(ip, dst, where, src)


@ext('numpy.put numpy.place numpy.putmask', 'a b c')
def np_put(ip, a, b, c):
    if isinstance(a, Arr):
        owner_check(ip, a)
        ip.put(a.root(), 'c', (Unk('np.put'), ()))


@_varcall('numpy.ix_')
def np_ix(ip, args, kw):
    return ('ix', ) + tuple(args) if False else tuple(
        (lambda s, k: Arr(tuple(s[0] if j == k else ONE for j in range(len(args))), s[1](I(k)), I8) if s else ip.unk('ix_'))(seqval(ip, a), k)
        for k, a in enumerate(args))


@_varcall('numpy.ndindex')
def np_ndindex(ip, args, kw):
    s = list(args[0]) if len(args) == 1 and isinstance(args[0], tuple) else args
    return it_product(ip, [py_range(ip, [x]) for x in s], {})


@ext('numpy.squeeze', 'a axis=None')
def np_squeeze(ip, a, axis):
    a = as_arrayish(ip, a)
    if isnum(a):
        return to_array(ip, a)
    if not isinstance(a, Arr):
        return ip.unk('squeeze')
    if axis is None:
        ax = []
        for k in range(a.ndim):
            if a.shape[k].const() == 1 or (a.shape[k].const() is None and ip.decide(mk_eq(a.shape[k] - ONE))):
                ax.append(k)
    else:
        if isinstance(axis, PList):
            axis = tuple(axis.concrete())
        ax = [x % a.ndim if a.ndim else x for x in ((axis,) if isinstance(axis, int) else axis)]
        for k in ax:
            if k >= a.ndim or not ip.decide(mk_eq(a.shape[k] - ONE)):
                ip.throw('ValueError', 'cannot select an axis to squeeze out which has size not equal to one')
    if not ax:
        return a
    vm = []
    j = 0
    shape = []
    for k in range(a.ndim):
        if k in ax:
            vm.append(ZERO)
        else:
            vm.append(I(j))
            shape.append(a.shape[k])
            j += 1
    return Arr(shape, None, a.dt, a.fmt, base=a, vmap=tuple(vm))


def ravel(ip, a, copy=False):
    if isinstance(a, RegArr):
        return a
    if not isinstance(a, Arr):
        return ip.unk('ravel')
    if a.ndim == 1:
        return a
    b = body_of(a)
    if isinstance(b, Unk):
        raise UnkBody(b.why)
    if a.ndim == 0:
        return Arr((1,), b, a.dt)
    big = [k for k in range(a.ndim) if a.shape[k].const() != 1]
    if len(big) == 1:
        k = big[0]
        return Arr((a.shape[k],), bsub(b, {('i', j): (I(0) if j == k else ZERO) for j in range(a.ndim)}), a.dt)
    n = ONE
    for x in a.shape:
        n = n * x
    r = Arr((n,), mk_idx(('ravel', a.shape, tsub(b, {('i', k): A(('L', 210 + k, 0)) for k in range(a.ndim)})), (I(0),))
            if a.dt.name != 'bool' else ('p', 'ravelb', b, I(0)), a.dt)
    r.rav = (a.shape, b)
    return r


EXT['numpy.ravel'] = ([('a', REQ), ('order', 'C')], lambda ip, a, order: ravel(ip, as_arrayish(ip, a)) if order == 'C' else ip.unk('order'))


def transpose(ip, a, axes=None):
    if not isinstance(a, Arr):
        return a if isinstance(a, RegArr) else ip.unk('transpose')
    if a.ndim <= 1:
        return a
    if axes is None:
        perm = list(range(a.ndim))[::-1]
    else:
        perm = [x % a.ndim for x in axes]
    shape = [a.shape[p] for p in perm]
    vm = [None] * a.ndim
    for j, p in enumerate(perm):
        vm[p] = I(j)
    if a.fmt == 'lil':
        return Arr(shape, bsub(body_of(a), {('i', k): e for k, e in enumerate(vm)}), a.dt, 'lil')
    return Arr(shape, None, a.dt, a.fmt, base=a, vmap=tuple(vm))


EXT['numpy.transpose'] = ([('a', REQ), ('axes', None)], lambda ip, a, axes: transpose(ip, as_arrayish(ip, a), axes))
EXT['numpy.swapaxes'] = ([('a', REQ), ('x', REQ), ('y', REQ)], lambda ip, a, x, y: transpose(ip, a) if isinstance(a, Arr) and a.ndim == 2 else ip.unk('swapaxes'))
EXT['numpy.matrix_transpose'] = ([('a', REQ)], lambda ip, a: transpose(ip, a))


def reshape(ip, a, shape):
    if isinstance(a, RegArr):
        return ip.unk('reshape of selection')
    if not isinstance(a, Arr):
        return ip.unk('reshape')
    sh = []
    for x in shape:
        if not isnum(x):
            return ip.unk('reshape')
        sh.append(poly(x))
    tot = ONE
    for x in a.shape:
        tot = tot * x
    neg = [k for k, x in enumerate(sh) if x.const() == -1]
    if len(neg) > 1:
        ip.throw('ValueError', 'can only specify one unknown dimension')
    if neg:
        rest = ONE
        for k, x in enumerate(sh):
            if k not in neg:
                rest = rest * x
        sh[neg[0]] = tot / rest if not rest.is_zero() else tot
    else:
        t2 = ONE
        for x in sh:
            t2 = t2 * x
        if t2 != tot and not ip.decide(mk_eq(t2 - tot)):
            ip.throw('ValueError', 'cannot reshape array')
    if tuple(sh) == a.shape:
        return Arr(a.shape, None, a.dt, a.fmt, base=a, vmap=tuple(I(k) for k in range(a.ndim)))
    # drop / insert singleton axes
    src = [(k, x) for k, x in enumerate(a.shape) if x.const() != 1]
    dst = [(k, x) for k, x in enumerate(sh) if x.const() != 1]
    if len(src) == len(dst) and all(x == y or ip.known(mk_eq(x - y)) is True for (_, x), (_, y) in zip(src, dst)):
        vm = [ZERO] * a.ndim
        for (k, _), (j, _) in zip(src, dst):
            vm[k] = I(j)
        r = Arr(sh, None, a.dt, a.fmt, base=a, vmap=tuple(vm))
        if a.rav is not None and len(sh) == 1:
            r.rav = a.rav
        return r
    if len(sh) == 1:
        return ravel(ip, a)
    if a.rav is not None:
        his, b = a.rav
        hs = [(k, x) for k, x in enumerate(his) if x.const() != 1]
        if len(hs) == len(dst) and all(x == y or ip.known(mk_eq(x - y)) is True for (_, x), (_, y) in zip(hs, dst)):
            mp = {('i', k): ZERO for k in range(len(his))}
            for (k, _), (j, _) in zip(hs, dst):
                mp[('i', k)] = I(j)
            return Arr(sh, bsub(b, mp), a.dt)
    b = body_of(a)
    pts = points(a.shape)
    if pts is not None and isinstance(b, Poly) and a.fmt == 'nd' and all(x.const() is not None for x in sh):
        from itertools import product
        pts2 = list(product(*[range(int(x.const())) for x in sh]))
        if len(pts2) == len(pts):
            return Arr(sh, from_table([(q, subst(b, {('i', k): P(x) for k, x in enumerate(pt)}))
                                       for q, pt in zip(pts2, pts)]), a.dt)
    return ip.unk('reshape')


@ext('numpy.reshape', 'a shape order=C')
def np_reshape(ip, a, shape, order):
    a = as_arrayish(ip, a)
    s = list(shape) if isinstance(shape, tuple) else [shape] if isnum(shape) else (shape.concrete() if isinstance(shape, PList) else None)
    if s is None or order != 'C':
        return ip.unk('reshape')
    return reshape(ip, a, s)


@ext('numpy.expand_dims', 'a axis')
def np_expand_dims(ip, a, axis):
    a = as_arrayish(ip, a)
    if not isinstance(a, Arr) or not isinstance(axis, int):
        return ip.unk('expand_dims')
    axis = axis % (a.ndim + 1)
    sh = list(a.shape)
    sh.insert(axis, ONE)
    vm = [I(k if k < axis else k + 1) for k in range(a.ndim)]
    return Arr(sh, None, a.dt, a.fmt, base=a, vmap=tuple(vm))


@ext('numpy.atleast_1d', 'a')
def np_atleast_1d(ip, a):
    a = to_array(ip, a)
    if isinstance(a, Arr) and a.ndim == 0:
        return Arr((1,), body_of(a), a.dt)
    return a


@ext('numpy.atleast_2d', 'a')
def np_atleast_2d(ip, a):
    a = np_atleast_1d(ip, a)
    if isinstance(a, Arr) and a.ndim == 1:
        return np_expand_dims(ip, a, 0)
    return a


@ext('numpy.stack', 'arrays axis=0')
def np_stack(ip, arrays, axis):
    if isinstance(arrays, PList) and arrays.kind == 'gen':
        arrays = PList(segs=iterate(ip, arrays))
    r = to_array(ip, arrays)
    if isinstance(r, Arr) and axis == 0:
        return r
    if isinstance(r, Arr) and isinstance(axis, int):
        ax = axis % r.ndim
        perm = list(range(1, r.ndim))
        perm.insert(ax, 0)
        return transpose(ip, r, perm)
    return ip.unk('stack')


@ext('numpy.concatenate', 'arrays axis=0')
def np_concatenate(ip, arrays, axis):
    c = list(arrays) if isinstance(arrays, tuple) else arrays.concrete() if isinstance(arrays, PList) else None
    if c is None or not all(isinstance(x, Arr) for x in c) or axis != 0 or len({x.ndim for x in c}) != 1:
        return ip.unk('concatenate')
    off = ZERO
    body = ZERO
    for k, x in enumerate(c):
        b = subst(nbody(x), {('i', 0): I(0) - off})
        nxt = off + x.shape[0]
        body = b if k == 0 else ite(mk_lt(I(0) - off), body, b)
        off = nxt
    return Arr((off,) + c[0].shape[1:], body, Dt(promote(*[x.dt.name for x in c])))


EXT['numpy.vstack'] = ([('arrays', REQ)], lambda ip, arrays: ip.unk('vstack'))
EXT['numpy.hstack'] = ([('arrays', REQ)], lambda ip, arrays: ip.unk('hstack'))


@ext('numpy.unique', 'a')
def np_unique(ip, a):
    a = as_arrayish(ip, a)
    if isinstance(a, Arr) and a.ndim == 1:
        segs = iterate(ip, a)
        if segs is not None:
            r = sorted_unique(ip, clone_segs(segs))
            if r is not None:
                return to_array(ip, PList(segs=r))
    return ip.unk('unique')


@ext('numpy.sort', 'a axis=-1')
def np_sort(ip, a, axis):
    a = as_arrayish(ip, a)
    if not isinstance(a, Arr) or a.ndim != 1:
        return ip.unk('sort')
    segs = iterate(ip, a)
    if segs is None or any(isinstance(g, AccSeg) or not isnum(g.val) for g in segs):
        return ip.unk('sort')
    return Arr(a.shape, mk_idx(('sorted', seq_key(segs)), (I(0),)), a.dt)


def np_argsort(ip, a, axis=-1, kind=None):
    a = as_arrayish(ip, a)
    if not isinstance(a, Arr) or a.ndim != 1 or a.shape[0].const() is None or a.shape[0].const() > 4:
        return ip.unk('argsort')
    b = nbody(a)
    r = stable_order(ip, [subst(b, {('i', 0): P(q)}) for q in range(int(a.shape[0].const()))])
    return to_array(ip, PList(r))


EXT['numpy.argsort'] = ([('a', REQ), ('axis', -1), ('kind', None)], np_argsort)
EXT['numpy.isin'] = ([('a', REQ), ('b', REQ)], lambda ip, a, b: ip.unk('isin'))
EXT['numpy.cumsum'] = ([('a', REQ), ('axis', None)], lambda ip, a, axis: ip.unk('cumsum'))
EXT['numpy.flip'] = ([('a', REQ), ('axis', None)], lambda ip, a, axis: ip.unk('flip'))
EXT['numpy.std'] = redsig(lambda ip, a, axis, dtype, keepdims: ip.unk('std'))
EXT['numpy.var'] = redsig(lambda ip, a, axis, dtype, keepdims: ip.unk('var'))
EXT['numpy.median'] = redsig(lambda ip, a, axis, dtype, keepdims: ip.unk('median'))
EXT['numpy.tile'] = ([('a', REQ), ('reps', REQ)], lambda ip, a, reps: ip.unk('tile'))
EXT['numpy.repeat'] = ([('a', REQ), ('repeats', REQ), ('axis', None)], lambda ip, a, repeats, axis: ip.unk('repeat'))
EXT['numpy.take'] = ([('a', REQ), ('idx', REQ), ('axis', None)], lambda ip, a, idx, axis: getitem(ip, a, idx) if isinstance(a, Arr) and (axis == 0 or a.ndim == 1) else ip.unk('take'))
EXT['numpy.logspace'] = ([('a', REQ), ('b', REQ), ('num', 50)], lambda ip, a, b, num: Opq(('logspace', vkey(a), vkey(b), vkey(num)), None))
EXT['numpy.linspace'] = ([('a', REQ), ('b', REQ), ('num', 50)], lambda ip, a, b, num: Opq(('linspace', vkey(a), vkey(b), vkey(num)), None))


@ext('numpy.logical_and numpy.logical_or numpy.logical_xor', 'a b')
def np_logical(ip, a, b):
    return ip.unk('logical')


def np_logic(op):
    def f(ip, a, b):
        a, b = as_arrayish(ip, a), as_arrayish(ip, b)
        g = (lambda x, y: mk_and(M.unind(x), M.unind(y))) if op == 'and' else (lambda x, y: mk_or(M.unind(x), M.unind(y)))
        if anyarr(a, b):
            return elem(ip, g, [a, b], B1)
        if isnum(a) and isnum(b):
            return boolv((mk_and if op == 'and' else mk_or)(cond_of(ip, a), cond_of(ip, b)), True)
        return ip.unk('logical')
    return f


EXT['numpy.logical_and'] = ([('a', REQ), ('b', REQ)], np_logic('and'))
EXT['numpy.logical_or'] = ([('a', REQ), ('b', REQ)], np_logic('or'))


@ext('numpy.logical_not numpy.invert', 'a')
def np_logical_not(ip, a):
    a = as_arrayish(ip, a)
    if anyarr(a):
        return elem(ip, lambda x: mk_not(M.unind(x)), [a], B1)
    return boolv(mk_not(cond_of(ip, a)), True) if isnum(a) else ip.unk('not')


@_varcall('numpy.unravel_index')
def np_unravel(ip, args, kw):
    i, shape = args[0], args[1] if len(args) > 1 else kw.get('shape')
    if not isinstance(shape, tuple) or not isnum(i):
        return ip.unk('unravel_index')
    e = poly(i)
    sh = [poly(x) for x in shape]
    n = ONE
    for x in sh:
        n = n * x
    if ip.known(mk_lt(e)) is not False:
        if ip.decide(mk_lt(e)):
            ip.throw('ValueError', 'index is out of bounds for array')
    if ip.known(mk_le(n - e)) is not False:
        if ip.decide(mk_le(n - e)):
            ip.throw('ValueError', 'index is out of bounds for array')
    if len(sh) == 2:
        a = A(('fn', 'floor', (e / sh[1],)))
        comps = [a, e - a * sh[1]]
        comps = [A(('fn', 'floor', (e / sh[1],))), A(('fn', 'mod', (e, sh[1])))]
        for c, h in zip(comps, sh):
            ip.assume(mk_le(-c))
            ip.assume(mk_lt(c - h))
        return tuple(Sc(c, 'npint') for c in comps)
    return ip.unk('unravel_index')


@ext('numpy.ravel_multi_index', 'idx shape')
def np_ravel_multi(ip, idx, shape):
    return ip.unk('ravel_multi_index')


@ext('numpy.linalg.norm', 'x ord=None axis=None keepdims=False')
def la_norm(ip, x, ord, axis, keepdims):
    x = as_arrayish(ip, x)
    if isnum(x):
        return np_un(ip, 'abs', x)
    if isinstance(x, RegArr):
        nd = 1
    elif isinstance(x, Arr):
        nd = x.ndim
        if x.dt.name == 'str_':
            ip.throw('TypeError', 'norm of strings')
    else:
        return ip.unk('norm')
    oc = None
    if ord is None:
        oc = 2
    elif isinstance(ord, str):
        if ord == 'fro' and nd == 2:
            oc = 2
        else:
            return ip.unk('norm ord')
    elif isnum(ord):
        p = poly(ord)
        if p == INF:
            oc = 'inf'
        elif p.const() is not None:
            oc = p.const()
    if nd == 2 and axis is None and ord is not None and not isinstance(ord, str):
        return ip.unk('matrix norm')
    if oc == 2:
        return np_un(ip, 'sqrt', np_sum(ip, np_un(ip, 'square', x), axis, keepdims))
    if oc == 1:
        return np_sum(ip, np_un(ip, 'abs', x), axis, keepdims)
    if oc == 'inf' and isinstance(x, Arr):
        return minmax(ip, np_un(ip, 'abs', x), 'max', axis, keepdims)
    return ip.unk('norm')


def eig_key(ip, a):
    return ('eig', akey(a))


def eig_common(ip, a, name, tol=None):
    a = as_arrayish(ip, a)
    if not isinstance(a, Arr):
        return None
    if a.ndim != 2:
        ip.throw('ValueError', 'expected square matrix')
    if not ip.decide(mk_eq(a.shape[0] - a.shape[1])):
        ip.throw('ValueError', 'expected square matrix')
    k = eig_key(ip, a)
    if 'eig' in ip.fail_hooks:
        if ip.decide(('p', 'eigfail-linalg', k)):
            raise PyRaise(mkexc(ip, TYPES_EXT['numpy.linalg.LinAlgError']))
        if ip.decide(('p', 'eigfail-other', k)):
            ip.throw('ValueError', 'array must not contain infs or NaNs')
        if ip.decide(('p', 'eigfail-mem', k)):
            ip.throw('MemoryError', 'out of memory')
    if name == 'eigvals':
        k = ('eigu',) + k[1:]
    return Arr((a.shape[0],), mk_idx(k, (I(0),)))


def mkexc(ip, t):
    o = Obj(t)
    o.s['args'] = ()
    o.info = ('exc', ip.pos[0], ip.pos[1], ip.pos[2])
    return o


@ext('scipy.linalg.eigh', 'a b=None lower=True eigvals_only=False overwrite_a=False overwrite_b=False type=1 check_finite=True subset_by_index=None subset_by_value=None driver=None')
def sl_eigh(ip, a, b, lower, eigvals_only, overwrite_a, overwrite_b, type, check_finite, subset_by_index, subset_by_value, driver):
    w = eig_common(ip, a, 'eigh')
    if w is None or b is not None:
        return ip.unk('eigh')
    if overwrite_a is True and isinstance(a, Arr):
        owner_check(ip, a, 'array (overwrite_a)')
        ip.put(a.root(), 'c', (Unk('overwritten by eigh'), ()))
    if subset_by_index is not None or subset_by_value is not None:
        si = subset_by_index
        c = list(si) if isinstance(si, tuple) else si.concrete() if isinstance(si, PList) else None
        if subset_by_value is None and c is not None and len(c) == 2 and all(isnum(x) for x in c):
            lo, hi = poly(c[0]), poly(c[1])
            w = Arr((hi - lo + ONE,), subst(nbody(w), {('i', 0): I(0) + lo}))
        else:
            w = ip.unk('eigenvalue subset')
    if eigvals_only is True:
        return w
    return (w, ip.unk('eigenvectors'))


@ext('scipy.linalg.eigvalsh numpy.linalg.eigvalsh', 'a UPLO=L check_finite=True')
def sl_eigvalsh(ip, a, UPLO, check_finite):
    w = eig_common(ip, a, 'eigvalsh')
    return ip.unk('eigvalsh') if w is None else w


@ext('numpy.linalg.eigh', 'a UPLO=L')
def nl_eigh(ip, a, UPLO):
    w = eig_common(ip, a, 'eigh')
    return ip.unk('eigh') if w is None else (w, ip.unk('eigenvectors'))


@ext('numpy.linalg.eigvals scipy.linalg.eigvals', 'a')
def nl_eigvals(ip, a):
    w = eig_common(ip, a, 'eigvals')
    return ip.unk('eigvals') if w is None else w


@ext('scipy.stats.pearsonr', 'x y')
def st_pearsonr(ip, x, y):
    if isinstance(x, RegArr) and isinstance(y, RegArr) and x.cond == y.cond and x.shape == y.shape:
        t = lambda b: arr_term(Arr(x.shape, b, F8))
        p = fn('pearsonsel', t(x.body), t(y.body), t(ind(x.cond)))
        return (Sc(p, 'npfloat'), Sc(A(('opq', ('pval', p))), 'npfloat'))
    x, y = as_arrayish(ip, x), as_arrayish(ip, y)
    if not (isinstance(x, Arr) and isinstance(y, Arr)):
        return ip.unk('pearsonr')
    p = fn('pearsonr', arr_term(x), arr_term(y))
    return (Sc(p, 'npfloat'), Sc(A(('opq', ('pval', p))), 'npfloat'))


def arr_term(x):
    """Scalar term that stands for a whole (flattened) array."""
    his, b = (x.rav if x.rav is not None else (x.shape, body_of(x)))
    if isinstance(b, Unk):
        raise UnkBody(b.why)
    if not isinstance(b, Poly):
        b = ind(b)
    qs = [fresh_q() for _ in his]
    # not permuted: element order matters
    mp = {('i', k): A(q) for k, q in enumerate(qs)}
    b = subst(b, mp)
    lvl = 1 + max(max_level(b), max([max_level(h) for h in his] or [0]))
    return A(('bnd', tuple(his), lvl, subst(b, {q: A(('L', lvl, k)) for k, q in enumerate(qs)})))


@ext('numpy.corrcoef', 'x y=None')
def np_corrcoef(ip, x, y):
    x = as_arrayish(ip, x)
    y = as_arrayish(ip, y) if y is not None else None
    if isinstance(x, Arr) and isinstance(y, Arr) and x.ndim == 1 and y.ndim == 1:
        p = fn('pearsonr', arr_term(x), arr_term(y))
        return Arr((2, 2), ite(mk_eq(I(0) - I(1)), ONE, p))
    return ip.unk('corrcoef')


@ext('scipy.sparse.issparse', 'x')
def sp_issparse(ip, x):
    if isinstance(x, Unk):
        return x
    return isinstance(x, Arr) and x.fmt == 'lil'


@ext('numpy.vectorize', 'f')
def np_vectorize(ip, f):
    return ip.unk('vectorize')


@ext('numpy.apply_along_axis numpy.apply_over_axes', 'f axis arr *')
def np_apply(ip, f, axis, arr, rest=()):
    return ip.unk('apply_along_axis')


EXT['numpy.shares_memory'] = ([('a', REQ), ('b', REQ)], lambda ip, a, b: ip.unk('shares_memory'))
for _n in ('time.time', 'time.sleep', 'datetime.datetime.now', 'os.getenv', 'os.environ.get', 'time.perf_counter'):
    VARARGS[_n] = lambda ip, a, k: (ip.event('io', 'clock/env'), ip.unk('clock/env'))[1]


_call_ext0 = call_ext


def call_ext(ip, f, args, kw):
    if isinstance(f, Ext) and f.name in VARARGS:
        return VARARGS[f.name](ip, list(args), dict(kw))
    return _call_ext0(ip, f, args, kw)


# ------------------------------------------------------------------ methods
def method(ip, r, name, args, kw):
    if isinstance(r, (str, StrV)):
        return str_method(ip, r, name, args, kw)
    if isinstance(r, (Arr, RegArr)):
        return arr_method(ip, r, name, args, kw)
    if isinstance(r, (PList, tuple)):
        return list_method(ip, r, name, args, kw)
    if isinstance(r, PDict):
        return dict_method(ip, r, name, args, kw)
    if isinstance(r, SliceV):
        return slice_indices(ip, r, args[0])
    if isnum(r):
        if name in ('item', 'conjugate', 'squeeze', 'copy', 'real', 'flatten', 'ravel'):
            if name == 'item' and isinstance(r, Sc):
                return Sc(r.p, {'npint': 'int', 'npfloat': 'float'}.get(r.ty, r.ty))
            return r
        if name in ('any', 'all'):
            return boolv(cond_of(ip, r), True)
        if name in ('sum', 'min', 'max', 'mean'):
            return r
        if name == 'astype':
            n = dtname(ip, args[0])
            return np_scalar(ip, n, [r]) if n else ip.unk('astype')
        if name == 'is_integer':
            return boolv(True) if is_int(poly(r)) else Bo(('p', 'isint', poly(r)))
        if name == 'dot':
            return binop(ip, 'Mult', r, args[0])
        return ip.unk('number.' + name)
    if isinstance(r, Obj):
        return sk_method(ip, r, name, args, kw)
    if isinstance(r, Opq):
        return ip.unk('method of opaque value')
    if isinstance(r, TypeV) and name == 'mro':
        return PList(r.mro)
    return ip.unk('method ' + name)


ARR_RED = {'sum': np_sum, 'prod': np_prod, 'any': np_any, 'all': np_all}


def getarg(args, kw, k, name, default=None):
    if len(args) > k:
        return args[k]
    return kw.get(name, default)


ARR_METHODS = set('''sum prod any all min max mean argmax argmin dot diagonal trace ravel flatten reshape transpose copy
astype squeeze tolist item fill conj conjugate toarray todense tocsr tocsc tolil tocoo clip round sort argsort nonzero repeat
take put cumsum std var view multiply getrow getcol setdiag searchsorted ptp swapaxes tobytes __len__ __getitem__ __setitem__ __iter__ itemset setflags byteswap partition resize nnz_ count_nonzero'''.split())


def arr_method(ip, a, name, args, kw):
    if name in ARR_RED:
        ax = getarg(args, kw, 0, 'axis')
        r = ARR_RED[name](ip, a, ax, kw.get('keepdims', False)) if isinstance(a, Arr) else ARR_RED[name](ip, a)
        if 'where' in kw or 'initial' in kw:
            return ip.unk('reduction option')
        return write_out(ip, kw, r)
    if name in ('min', 'max'):
        if isinstance(a, RegArr):
            return ip.unk(name)
        return minmax(ip, a, name, getarg(args, kw, 0, 'axis'), kw.get('keepdims', False))
    if name in ('argmax', 'argmin'):
        return np_arg(ip, a, name, getarg(args, kw, 0, 'axis'))
    if name == 'argsort':
        return np_argsort(ip, a)
    if name == 'ptp':
        return binop(ip, 'Sub', minmax(ip, a, 'max'), minmax(ip, a, 'min'))
    if name == 'mean':
        return np_mean(ip, a, getarg(args, kw, 0, 'axis'), kw.get('keepdims', False))
    if name == 'dot':
        return write_out(ip, kw, dot(ip, a, args[0]))
    if isinstance(a, RegArr):
        if name in ('ravel', 'flatten', 'copy'):
            return a
        if name == 'dot':
            return dot(ip, a, args[0])
        return ip.unk('selection.' + name)
    if name == 'diagonal':
        if args or kw:
            return ip.unk('diagonal offset')
        return diagonal(ip, a)
    if name == 'trace':
        return np_trace(ip, a)
    if name in ('ravel', 'flatten'):
        r = ravel(ip, a)
        if name == 'flatten' and r is a:
            return to_array(ip, a, None, True)
        return r
    if name == 'reshape':
        s = args
        if len(args) == 1 and not isnum(args[0]):
            s = list(args[0]) if isinstance(args[0], tuple) else (args[0].concrete() if isinstance(args[0], PList) else None)
        if s is None or kw.get('order', 'C') != 'C':
            return ip.unk('reshape')
        return reshape(ip, a, s)
    if name == 'transpose':
        ax = args
        if len(args) == 1 and isinstance(args[0], tuple):
            ax = args[0]
        return transpose(ip, a, list(ax) if ax and ax[0] is not None else None)
    if name == 'swapaxes':
        return transpose(ip, a) if a.ndim == 2 else ip.unk('swapaxes')
    if name == 'copy':
        r = Arr(a.shape, body_of(a), a.dt, a.fmt)
        r.rav = a.rav
        return r
    if name == 'astype':
        d = mkdtype(ip, getarg(args, kw, 0, 'dtype'))
        if d is None:
            return ip.unk('astype')
        if d.name == a.dt.name and kw.get('copy', True) is False:
            return a
        b = body_of(a)
        if isinstance(b, Unk):
            raise UnkBody(b.why)
        r = Arr(a.shape, cast_body(ip, b, a.dt, d), d, a.fmt)
        if a.rav is not None:
            r.rav = (a.rav[0], cast_body(ip, a.rav[1], a.dt, d))
        return r
    if name == 'squeeze':
        return np_squeeze(ip, a, getarg(args, kw, 0, 'axis'))
    if name == 'view':
        return a if not args else ip.unk('view')
    if name in ('conj', 'conjugate'):
        return a
    if name == 'tolist':
        segs = iterate(ip, a)
        if segs is None or a.ndim > 1:
            return ip.unk('tolist')
        out = []
        for g in segs:
            v = g.val
            if isinstance(v, Sc):
                v = mkS(v.p, {'npint': 'int', 'npfloat': 'float'}.get(v.ty, v.ty))
            out.append(Seg(g.vars, g.cond, v))
        return PList(segs=out)
    if name == 'item':
        if not args:
            n = poly(size_of(a))
            if not ip.decide(mk_eq(n - ONE)):
                ip.throw('ValueError', 'can only convert an array of size 1 to a Python scalar')
            v = elem_value(ip, bsub(body_of(a), {('i', k): ZERO for k in range(a.ndim)}), a.dt)
            return method(ip, v, 'item', [], {}) if isinstance(v, Sc) else v
        return ip.unk('item')
    if name == 'fill':
        arr_setitem(ip, a, Ext('builtins.Ellipsis'), args[0])
        return None
    if name in ('toarray', 'todense'):
        if a.fmt != 'lil':
            ip.throw('AttributeError', "'numpy.ndarray' object has no attribute '%s'" % name)
        return Arr(a.shape, body_of(a), a.dt, 'nd' if name == 'toarray' else 'matrix')
    if name in ('tocsr', 'tocsc', 'tolil', 'tocoo'):
        if a.fmt != 'lil':
            ip.throw('AttributeError', "'numpy.ndarray' object has no attribute '%s'" % name)
        return Arr(a.shape, body_of(a), a.dt, 'lil')
    if name == 'multiply' and a.fmt == 'lil':
        return binop(ip, 'Mult', Arr(a.shape, body_of(a), a.dt), args[0])
    if name == 'clip':
        return np_clip(ip, a, getarg(args, kw, 0, 'min'), getarg(args, kw, 1, 'max'))
    if name in ('sort', 'put', 'resize', 'itemset', 'partition', 'setdiag'):
        r = np_sort(ip, Arr(a.shape, body_of(a), a.dt), -1) if name == 'sort' and a.ndim == 1 and not args and not kw else None
        if isinstance(r, Arr):
            arr_write_all(ip, a, r)
            return None
        owner_check(ip, a)
        ip.put(a.root(), 'c', (Unk('array.' + name), ()))
        return None
    if name == 'setflags':
        return None
    if name == 'nonzero':
        return np_nonzero(ip, a)
    if name == '__len__':
        return py_len(ip, a)
    if name == '__getitem__':
        return getitem(ip, a, args[0])
    if name == '__setitem__':
        return setitem(ip, a, args[0], args[1])
    return ip.unk('array.' + name)


def write_out(ip, kw, r):
    o = kw.get('out')
    if isinstance(o, Arr):
        if isinstance(r, Arr):
            arr_write_all(ip, o, r)
        else:
            owner_check(ip, o)
            ip.put(o.root(), 'c', (Unk('out='), ()))
        return o
    return r


def list_method(ip, l, name, args, kw):
    if isinstance(l, tuple):
        if name == 'index':
            for k, x in enumerate(l):
                c = value_eq(ip, x, args[0])
                if c is True:
                    return k
            return ip.unk('index')
        if name == 'count':
            return ip.unk('count')
        if name == '__len__':
            return len(l)
        ip.throw('AttributeError', "'tuple' object has no attribute '%s'" % name)
    if name in ('append', 'add'):
        if name == 'add':
            owner_check(ip, l, 'set')
            r = make_set(ip, PList(segs=l.segs + (one(args[0]),)))
            ip.put(l, 'segs', r.segs if isinstance(r, PList) else (one(r),))
            return None
        append(ip, l, args[0])
        return None
    if name in ('extend', 'update'):
        segs = iterate(ip, args[0])
        if segs is None:
            ip.taint('extend by unknown')
            ip.put(l, 'segs', l.segs + (Seg([(fresh_q(), A(('opq', ('int', 'unk'))))], True, ip.unk('extend')),))
            return None
        owner_check(ip, l, 'list')
        ip.put(l, 'segs', l.segs + tuple(clone_segs(segs)))
        return None
    if name == 'copy':
        return PList(segs=l.segs, kind=l.kind)
    if name == 'clear':
        owner_check(ip, l, 'list')
        ip.put(l, 'segs', ())
        return None
    if name == 'sort':
        owner_check(ip, l, 'list')
        r = py_sorted(ip, PList(segs=l.segs), kw.get('reverse', False), kw.get('key'))
        ip.put(l, 'segs', r.segs if isinstance(r, PList) else (one(r),))
        return None
    if name == 'reverse':
        r = reverse_segs(ip, list(l.segs))
        owner_check(ip, l, 'list')
        if r is None:
            raise GiveUp('reverse')
        ip.put(l, 'segs', tuple(r))
        return None
    if name == 'pop':
        segs = l.segs
        owner_check(ip, l, 'list')
        if not args or args[0] == -1:
            g = segs[-1] if segs else None
            if g is None:
                ip.throw('IndexError', 'pop from empty list')
            if not isinstance(g, AccSeg) and not g.vars and g.cond is True:
                ip.put(l, 'segs', segs[:-1])
                return g.val
            if not isinstance(g, AccSeg) and len(g.vars) == 1 and g.cond is True:
                q, h = g.vars[0]
                if ip.decide(mk_lt(-h)):
                    ip.put(l, 'segs', segs[:-1] + (Seg([(q, h - ONE)], True, g.val),))
                    return vsub(g.val, {q: h - ONE})
        elif args[0] == 0 and segs and not isinstance(segs[0], AccSeg) and not segs[0].vars and segs[0].cond is True:
            ip.put(l, 'segs', segs[1:])
            return segs[0].val
        raise GiveUp('list.pop')
    if name == 'insert':
        owner_check(ip, l, 'list')
        c = l.concrete()
        if args[0] == 0:
            ip.put(l, 'segs', (one(args[1]),) + l.segs)
            return None
        if c is not None and isinstance(args[0], int):
            c.insert(args[0], args[1])
            ip.put(l, 'segs', tuple(one(x) for x in c))
            return None
        raise GiveUp('list.insert')
    if name in ('remove', 'discard'):
        raise GiveUp('list.remove')
    if name == 'index':
        return ip.unk('index')
    if name == 'count':
        return ip.unk('count')
    if name in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference'):
        return set_op(ip, l, name, args)
    if name == '__len__':
        return py_len(ip, l)
    if name == '__getitem__':
        return getitem(ip, l, args[0])
    if name == '__iter__':
        return b_iter(ip, l)
    if name == '__next__':
        return b_next(ip, l)
    if name == '__contains__':
        return boolv(contains(ip, l, args[0]))
    ip.throw('AttributeError', "'%s' object has no attribute '%s'" % (l.kind, name))


def set_op(ip, l, name, args):
    c = l.concrete()
    o = args[0].concrete() if isinstance(args[0], PList) else list(args[0]) if isinstance(args[0], tuple) else \
        [k for k, _ in args[0].concrete()] if isinstance(args[0], PDict) and args[0].concrete() is not None else None
    if c is None or o is None:
        return ip.unk('set operation')
    kc, ko = {vkey(x) for x in c}, {vkey(x) for x in o}
    if name == 'union':
        return make_set(ip, PList(c + o))
    if name == 'intersection':
        return PList([x for x in c if vkey(x) in ko], kind='set')
    if name == 'difference':
        return PList([x for x in c if vkey(x) not in ko], kind='set')
    if name == 'issubset':
        return kc <= ko
    if name == 'issuperset':
        return kc >= ko
    if name == 'isdisjoint':
        return not (kc & ko)
    return ip.unk('set operation')


def dict_method(ip, d, name, args, kw):
    if name == 'get':
        v = dict_get(ip, d, args[0])
        if v is MISSING:
            return args[1] if len(args) > 1 else kw.get('default')
        return v
    if name in ('items', 'keys', 'values'):
        segs = []
        for e in d.ents:
            if e.weak or isinstance(e.key, Unk):
                return ip.unk('dict.' + name)
            v = {'items': (e.key, e.val), 'keys': e.key, 'values': e.val}[name]
            segs.append(Seg(e.vars, e.cond, v))
        return PList(segs=clone_segs(segs), kind='list')
    if name == 'setdefault':
        v = dict_get(ip, d, args[0])
        if v is MISSING:
            v = args[1] if len(args) > 1 else None
            setitem(ip, d, args[0], v)
        return v
    if name == 'pop':
        v = dict_get(ip, d, args[0])
        if v is MISSING:
            if len(args) > 1:
                return args[1]
            ip.throw('KeyError', 'key')
        M.delitem(ip, d, args[0])
        return v
    if name == 'clear':
        owner_check(ip, d, 'dict')
        ip.put(d, 'ents', ())
        return None
    if name == 'copy':
        r = PDict()
        r.s['ents'] = d.ents
        return r
    if name == 'update':
        owner_check(ip, d, 'dict')
        if args:
            if isinstance(args[0], PDict):
                c = args[0].concrete()
                if c is None:
                    ip.put(d, 'ents', d.ents + args[0].ents)
                else:
                    for k, v in c:
                        setitem(ip, d, k, v)
            else:
                src = t_dict(ip, [args[0]], {})
                if isinstance(src, Unk):
                    raise GiveUp('dict.update')
                ip.put(d, 'ents', d.ents + src.ents)
        for k, v in kw.items():
            setitem(ip, d, k, v)
        return None
    if name == '__contains__':
        return boolv(contains(ip, d, args[0]))
    if name == '__len__':
        return py_len(ip, d)
    if name == '__getitem__':
        return getitem(ip, d, args[0])
    if name == '__setitem__':
        return setitem(ip, d, args[0], args[1])
    ip.throw('AttributeError', "'dict' object has no attribute '%s'" % name)


def slice_indices(ip, s, n):
    """slice.indices(n)."""
    if isinstance(n, Unk):
        return n
    if s.key is not None:
        # arbitrary slice: any start, stop, step
        np_ = poly(n)
        st = sym(('slstep', s.key), 'int')
        if ip.decide(mk_eq(st - ONE)):
            # step one: a contiguous range inside [0, n]
            lo, hi = sym(('slo', s.key, np_), 'int'), sym(('shi', s.key, np_), 'int')
            ip.assume(mk_le(-lo))
            ip.assume(mk_le(-hi))
            ip.assume(mk_le(lo - np_))
            ip.assume(mk_le(hi - np_))
            return (Sc(lo, 'int'), Sc(hi, 'int'), 1)
        return (Sc(sym(('slstart', s.key, np_), 'int'), 'int'), Sc(sym(('slstop', s.key, np_), 'int'), 'int'), Sc(st, 'int'))
    if all(x is None or isinstance(x, int) for x in (s.lo, s.hi, s.step)) and isinstance(n, int):
        return tuple(slice(s.lo, s.hi, s.step).indices(n))
    for x in (s.lo, s.hi, s.step):
        if x is not None and not is_intlike(x) and not isinstance(x, (Unk, Opq)):
            ip.throw('TypeError', 'slice indices must be integers')
    info = M.slice_info(ip, s, poly(n))
    if info is None:
        if s.step in (None, 1, -1):
            return ip.unk('slice.indices')
        return ip.unk('slice.indices')
    lo, ln, step = info
    if step == 1:
        return (mkS(lo, 'int'), mkS(lo + ln, 'int'), 1)
    if step == -1:
        return (mkS(lo, 'int'), -1, -1)
    return (mkS(lo, 'int'), mkS(poly(n), 'int'), step)


# ------------------------------------------------------------------ attributes
def globals_method(ip, g, name, args, kw):
    if name in ('get', 'setdefault', 'pop') and args and isinstance(args[0], str):
        if args[0] in g.mod.s:
            return g.mod.s[args[0]]
        d = args[1] if len(args) > 1 else None
        if name == 'setdefault':
            ip.put(g.mod, args[0], d)
        return d
    if name == 'update':
        for a in args:
            if not isinstance(a, PDict) or a.concrete() is None:
                ip.taint('globals()')
                return None
            for k, v in a.concrete():
                setitem(ip, g, k, v)
        for k, v in kw.items():
            ip.put(g.mod, k, v)
        return None
    return ip.unk('globals()')


def value_attr(ip, o, name, default=MISSING):
    if isinstance(o, GlobalsV):
        return Native('globals().' + name, lambda ip, args, kw: globals_method(ip, o, name, args, kw))
    if isinstance(o, (Arr, RegArr)):
        if isinstance(o, Arr):
            if name == 'shape':
                return tuple(mkS(x, 'int') for x in o.shape)
            if name == 'ndim':
                return o.ndim
            if name == 'size':
                return size_of(o)
            if name == 'T':
                return transpose(ip, o)
            if name == 'dtype':
                return o.dt
            if name in ('real',):
                return o
            if name in ('A', 'A1') and o.fmt == 'matrix':
                return Arr(o.shape, body_of(o), o.dt)
            if name == 'flat':
                return ravel(ip, o)
            if name == 'base':
                return o.base
            if name == 'flags' and o.fmt == 'nd':
                return Opq(('arrflags', 'of the given array' if o.owner and o.base is None else 'of an array %d' % o.uid if hasattr(o, 'uid') else 'of an array'), None)
            if name in ('data', 'rows', 'nnz', 'nbytes', 'itemsize', 'strides', 'imag'):
                return ip.unk('array.' + name)
        else:
            if name == 'size':
                return mkS(length(ip, o), 'int')
            if name == 'ndim':
                return 1
            if name == 'dtype':
                return o.dt
            if name == 'T':
                return o
            if name == 'shape':
                return (mkS(length(ip, o), 'int'),)
        if name in ARR_METHODS:
            if name in ('toarray', 'todense', 'tocsr', 'tolil', 'setdiag', 'getrow') and not (isinstance(o, Arr) and o.fmt == 'lil'):
                return attr_missing(ip, o, name, default)
            return BoundM(o, name)
        return attr_missing(ip, o, name, default)
    if isinstance(o, (str, StrV)):
        if hasattr('', name):
            return BoundM(o, name)
        return attr_missing(ip, o, name, default)
    if isinstance(o, PList):
        kind = {'gen': (x for x in ()), 'set': set(), 'tuple': (), 'range': range(0)}.get(o.kind, [])
        if o.kind == 'range' and name in ('start', 'stop', 'step'):
            return ip.unk('range.' + name)
        return BoundM(o, name) if hasattr(kind, name) else attr_missing(ip, o, name, default)
    if isinstance(o, tuple):
        return BoundM(o, name) if hasattr((), name) else attr_missing(ip, o, name, default)
    if isinstance(o, PDict):
        return BoundM(o, name) if hasattr({}, name) else attr_missing(ip, o, name, default)
    if isinstance(o, SliceV):
        if name in ('start', 'stop', 'step'):
            if o.key is not None:
                return Opq(('sl' + name, o.key), None)
            return {'start': o.lo, 'stop': o.hi, 'step': o.step}[name]
        return BoundM(o, name) if name == 'indices' else attr_missing(ip, o, name, default)
    if isnum(o):
        np_ = isinstance(o, (Sc, Bo)) and (getattr(o, 'np', False) or getattr(o, 'ty', '').startswith('np'))
        if np_:
            if name == 'dtype':
                return Dt(scalar_dt(o))
            if name == 'shape':
                return ()
            if name in ('ndim',):
                return 0
            if name == 'size':
                return 1
            if name == 'T':
                return o
            if name in ('any', 'all', 'item', 'sum', 'min', 'max', 'astype', 'squeeze', 'copy', 'mean', 'dot', 'conjugate', 'ravel', 'flatten'):
                return BoundM(o, name)
        if name in ('real',):
            return o
        if name == 'imag':
            return 0
        if name in ('is_integer', 'conjugate'):
            return BoundM(o, name)
        return attr_missing(ip, o, name, default)
    if o is None:
        return attr_missing(ip, o, name, default)
    if isinstance(o, Dt):
        if name == 'name':
            return o.name
        if name == 'kind':
            return {'float64': 'f', 'float32': 'f', 'float16': 'f', 'int64': 'i', 'int32': 'i', 'bool': 'b', 'object': 'O',
                    'str_': 'U', 'complex128': 'c'}.get(o.name, 'V')
        if name == 'type':
            return Ext('numpy.' + o.name)
        if name == 'char':
            return {'float64': 'd', 'int64': 'l', 'bool': '?', 'object': 'O', 'str_': 'U', 'complex128': 'D', 'float32': 'f'}.get(o.name, 'V')
        return ip.unk('dtype.' + name)
    if isinstance(o, Ext):
        if name == '__name__':
            return o.name.split('.')[-1]
        if o.name == 'itertools.chain' and name == 'from_iterable':
            return Native('from_iterable', lambda ip_, a, k: chain_from(ip_, a[0]))
        if o.name.split('.')[0] == 'builtins' and name in ('__doc__', '__module__'):
            return StrV(('doc', o.name))
        if o.name.startswith('numpy.') and o.name.split('.')[1] in ('add', 'multiply', 'maximum', 'minimum', 'logical_or', 'logical_and', 'subtract') and name in ('reduce', 'outer', 'accumulate', 'at'):
            return Native(o.name + '.' + name, ufunc_method(o.name.split('.')[1], name))
        return ext_attr(ip, o, name)
    if isinstance(o, (Func, Native)):
        if name in ('__name__', '__qualname__'):
            return o.name
        if name == '__doc__':
            return StrV(('doc', o.name))
        if name == '__module__':
            return o.module.name if isinstance(o, Func) else 'native'
        if name == '__call__':
            return o
        if name == 'func' and hasattr(o, 'partial_of'):
            return o.partial_of
        if name == '__wrapped__':
            return attr_missing(ip, o, name, default)
        return attr_missing(ip, o, name, default) if isinstance(o, Func) else ip.unk('native.' + name)
    if isinstance(o, Bound):
        if name == '__self__':
            return o.self_
        if name == '__func__':
            return o.func
        return value_attr(ip, o.func, name, default)
    if isinstance(o, BoundM):
        if name == '__name__':
            return o.name
        return ip.unk('method attribute')
    if isinstance(o, Native) and hasattr(o, 'memo'):
        if name == '__wrapped__':
            return o.wrapped
        if name == '__name__':
            return value_attr(ip, o.wrapped, name, default)
        if name == 'cache_clear':
            return Native('cache_clear', lambda ip_, a, k: ip_.put(o.memo, 'ents', ()))
    if isinstance(o, Prop):
        if name in ('fget', 'fset'):
            return getattr(o, name)
        return ip.unk('property.' + name)
    if isinstance(o, Unk):
        return o
    if isinstance(o, TriIdx):
        if name == 'size':
            return mkS(length(ip, o), 'int')
        if name == 'shape':
            return (mkS(length(ip, o), 'int'),)
        return ip.unk('index array.' + name)
    if isinstance(o, Opq) and isinstance(o.key, tuple) and o.key[:1] == ('arrflags',):
        return boolv(('p', 'arrflag', o.key[1], name.lower()))
    if isinstance(o, Opq):
        if o.ty is not None and o.ty.name not in ('object', 'function', 'type'):
            if default is not MISSING:
                return default
        if isinstance(o.key, tuple) and o.key and o.key[0] == 'logger':
            return Native('logger', lambda ip_, a, k: ip_.event('print') and None)
        if isinstance(o.key, tuple) and o.key and o.key[0] == 'signature' and name == 'parameters':
            return Opq(('parameters',) + o.key[1:], None)
        if o.ty is not None and o.ty.name == 'object':
            return attr_missing(ip, o, name, default)
        return Opq(('attr', o.key, name), None)
    return ip.unk('attribute ' + name)


def attr_missing(ip, o, name, default):
    if default is not MISSING:
        return default
    t = vtype(ip, o)
    ip.throw('AttributeError', "'%s' object has no attribute '%s'" % (t.name if t else '?', name))


def chain_from(ip, it):
    out = PList(kind='gen')
    segs = iterate(ip, it)
    if segs is None:
        return ip.unk('chain')

    def body(v):
        list_method(ip, out, 'extend', [v], {})
        return None
    ip.run_loop(clone_segs(segs), body)
    return out


def ufunc_method(u, name):
    def f(ip, a, k):
        x = as_arrayish(ip, a[0]) if not (isinstance(a[0], PList) and a[0].kind == 'gen') else to_array(ip, PList(segs=iterate(ip, a[0])))
        if name == 'outer':
            if u == 'multiply':
                return np_outer(ip, a[0], a[1])
            x, y = to_array(ip, a[0]), to_array(ip, a[1])
            if isinstance(x, Arr) and isinstance(y, Arr) and x.ndim == 1 and y.ndim == 1 and u in ('add', 'subtract'):
                return binop(ip, 'Add' if u == 'add' else 'Sub', np_expand_dims(ip, x, 1), np_expand_dims(ip, y, 0))
            return ip.unk('ufunc.outer')
        if name == 'at':
            if isinstance(a[0], Arr):
                owner_check(ip, a[0])
                ip.put(a[0].root(), 'c', (Unk('ufunc.at'), ()))
            return None
        if name == 'reduce':
            ax = k.get('axis', a[1] if len(a) > 1 else 0)
            if u == 'add':
                return np_sum(ip, x, ax)
            if u == 'multiply':
                return np_prod(ip, x, ax)
            if u in ('maximum', 'minimum'):
                return minmax(ip, x, u[:3], ax)
            if u == 'logical_or':
                return np_any(ip, x, ax)
            if u == 'logical_and':
                return np_all(ip, x, ax)
        return ip.unk('ufunc.' + name)
    return f


# ------------------------------------------------------------------ external objects
SK_METHODS = {
    'sklearn.base.BaseEstimator': {'get_params', 'set_params', '_validate_data', '_more_tags', '_get_param_names', '_repr_html_', '__repr__', '__sklearn_tags__', '_check_n_features', '_check_feature_names'},
    'sklearn.base.ClassifierMixin': {'score'},
    'sklearn.base.RegressorMixin': {'score'},
    'sklearn.svm._base.BaseLibSVM': {'fit', 'predict', 'decision_function'},
    'sklearn.svm._base.BaseSVC': {'predict', 'decision_function', 'predict_proba'},
    'sklearn.model_selection.GridSearchCV': {'fit', 'predict', 'score'},
}
SK_ATTRS = {'best_score_', 'best_estimator_', 'best_params_', 'best_index_', 'cv_results_', 'classes_', 'support_',
            'dual_coef_', 'intercept_', 'support_vectors_', 'n_support_', 'shape_fit_'}


def sklearn_base(t):
    for c in t.mro:
        if c.name in EXT_INIT:
            return c
    return None


def ext_init(ip, o, args, kw, t=None):
    """Constructor of an external (scikit-learn) base. True if handled."""
    t = t or o.cls
    b = sklearn_base(t)
    if b is None:
        if o.cls.issub(TYPES_EXT['sklearn.base.BaseEstimator']):
            return not args and not kw
        return False
    ps = EXT_INIT[b.name]
    if args and b.name != 'sklearn.model_selection.GridSearchCV':
        ip.throw('TypeError', '__init__() takes 1 positional argument')
    vals = dict(ps)
    if args:
        for (k, _), v in zip(ps, args):
            vals[k] = v
    for k, v in kw.items():
        if k not in vals:
            ip.throw('TypeError', "__init__() got an unexpected keyword argument '%s'" % k)
        vals[k] = v
    for k, v in vals.items():
        v = Sc(P(v), 'float') if isinstance(v, float) else v
        if o.s.get(k, MISSING) is not v:
            ip.put(o, k, v)
    return True


def sk_params(ip, o, t):
    b = sklearn_base(t)
    ps = EXT_INIT[b.name] if b else []
    return tuple((k, akey(o.s.get(k))) for k, _ in ps)


def super_attr(ip, sv, rest, name):
    o = sv.obj
    if name == '__init__':
        for c in rest:
            if c.name in EXT_INIT:
                return Native('super().__init__', lambda ip_, a, k: (ext_init(ip_, o, a, k, c), None)[1])
        return Native('object.__init__', lambda ip_, a, k: None if not a and not k else ip_.throw('TypeError', 'object.__init__() takes exactly one argument'))
    if name == '__new__':
        return Native('object.__new__', lambda ip_, a, k: Obj(a[0]))
    for c in rest:
        if c.name in SK_METHODS and name in SK_METHODS[c.name]:
            return Native('super().' + name, lambda ip_, a, k: sk_method(ip_, o, name, a, k))
    if isinstance(o, Obj) and name in ('__setattr__', '__getattribute__', '__delattr__'):
        if name == '__setattr__':
            return Native('object.__setattr__', lambda ip_, a, k: ip_.put(o, a[0], a[1]))
        if name == '__getattribute__':
            return Native('object.__getattribute__', lambda ip_, a, k: ip_.getattr(o, a[0]))
        return Native('object.__delattr__', lambda ip_, a, k: ip_.dele(o, a[0]))
    if name in ('__str__', '__repr__'):
        return Native('object' + name, lambda ip_, a, k: StrV(('repr', vkey(o))))
    if name == '__format__':
        return Native('object.__format__', lambda ip_, a, k: to_str(ip_, o) if (not a or a[0] == '') else ip_.throw('TypeError', 'unsupported format string'))
    if name in ('__eq__', '__hash__', '__init_subclass__'):
        return Native('object' + name, lambda ip_, a, k: ip_.unk(name))
    return MISSING


def sk_class(o, name):
    for c in o.cls.mro:
        if c.name in SK_METHODS and name in SK_METHODS[c.name]:
            return c
    return None


def obj_attr(ip, o, name):
    if name == '__class__':
        return o.cls
    if name == '__dict__':
        return AttrDict(o)
    if name == '__doc__':
        return StrV(('doc', o.cls.name))
    if name == '__module__':
        return o.cls.module.name if isinstance(o.cls, ClassV) else 'ext'
    if name in ('__str__', '__repr__'):
        return Native(name, lambda ip_, a, k: to_repr(ip_, o))
    if name == '__format__':
        return Native(name, lambda ip_, a, k: format_value(ip_, o, a[0] if a else ''))
    if name in ('__setattr__', '__delattr__', '__getattribute__', '__hash__', '__eq__', '__ne__', '__reduce__', '__sizeof__', '__init_subclass__', '__new__'):
        if name == '__setattr__':
            return Native(name, lambda ip_, a, k: ip_.setattr(o, a[0], a[1]))
        if name == '__delattr__':
            return Native(name, lambda ip_, a, k: ip_.delattr(o, a[0]))
        if name == '__getattribute__':
            return Native(name, lambda ip_, a, k: ip_.getattr(o, a[0]))
        return Native(name, lambda ip_, a, k: ip_.unk(name))
    if name == '__init__':
        return Native(name, lambda ip_, a, k: None)
    if o.cls.issub(TYPES['BaseException']):
        if name in ('with_traceback', 'add_note'):
            return Native(name, lambda ip_, a, k: o)
        if name in ('__cause__', '__context__', '__traceback__', '__notes__'):
            return o.s.get(name)
    if name in SK_ATTRS:
        h = o.s.get('#hist', ())
        if not h or not (o.cls.issub(TYPES_EXT['sklearn.base.BaseEstimator'])):
            return MISSING
        fit = [x for x in h if x[0] == 'fit'][-1]
        if name == 'best_score_':
            return Sc(A(('opq', ('best_score', fit))), 'npfloat')
        if name in ('best_params_', 'cv_results_'):
            return Opq((name, fit), None)
        if name == 'best_index_':
            return Sc(A(('opq', ('int', name, fit))), 'npint')
        if name == 'classes_':
            if o.cls.name.endswith('SVR'):
                return MISSING
            return Opq(('classes_', fit), None)
        return Opq((name, fit), None)
    if sk_class(o, name) is not None:
        return BoundM(o, name)
    if o.info and o.info[0] == 'extseq':
        return MISSING
    return MISSING


def sk_method(ip, o, name, args, kw):
    if name == 'get_params':
        return sk_get_params(ip, o)
    if name == 'set_params':
        return sk_set_params(ip, o, kw)
    if name == '_more_tags':
        return PDict()
    if name == '__repr__':
        return StrV(('repr', vkey(o)))
    if name == 'fit':
        X = getarg(args, kw, 0, 'X')
        y = getarg(args, kw, 1, 'y')
        extra = {k: v for k, v in kw.items() if k not in ('X', 'y', 'sample_weight')}
        gs = o.cls.name.endswith('GridSearchCV')
        sw = kw.get('sample_weight', args[2] if len(args) > 2 and not gs else None)
        if isinstance(X, Unk) or isinstance(y, Unk):
            ip.taint('fit on unknown data')
        t = o.cls
        kern = o.s.get('kernel')
        if isinstance(X, Arr):
            if X.ndim != 2:
                ip.throw('ValueError', 'Expected 2D array')
            if kern == 'precomputed' and not ip.decide(mk_eq(X.shape[0] - X.shape[1])):
                ip.throw('ValueError', 'Precomputed matrix must be a square matrix')
            if isinstance(y, Arr) and not ip.decide(mk_eq(X.shape[0] - y.shape[0])):
                ip.throw('ValueError', 'Found input variables with inconsistent numbers of samples')
        rec = ('fit', t.name if not isinstance(t, ClassV) else sklearn_base(t).name, sk_params(ip, o, t), akey(X), akey(y), akey(sw),
               tuple(sorted((k, akey(v)) for k, v in extra.items())))
        ip.event('ext-fit', o, rec, freeze(X), freeze(y), freeze(sw),
                 dict((k, freeze(o.s.get(k))) for k, _ in EXT_INIT[sklearn_base(t).name]), {k: freeze(v) for k, v in extra.items()})
        ip.put(o, '#hist', (rec,))
        ip.put(o, '#fitX', X)
        ip.put(o, '#fity', y)
        return o
    if name in ('predict', 'decision_function', 'predict_proba', 'score'):
        h = o.s.get('#hist')
        if not h:
            raise PyRaise(mkexc(ip, TYPES_EXT['sklearn.exceptions.NotFittedError']))
        X = getarg(args, kw, 0, 'X')
        fx, fy = o.s['#fitX'], o.s['#fity']
        if isinstance(X, Unk):
            ip.taint('predict on unknown data')
        if isinstance(X, Arr):
            if X.ndim != 2:
                ip.throw('ValueError', 'Expected 2D array')
            if isinstance(fx, Arr) and not ip.decide(mk_eq(X.shape[1] - fx.shape[1])):
                ip.throw('ValueError', 'X has wrong number of features')
        ip.event('ext-' + name, o, h[0], freeze(X))
        if name != 'predict' or not isinstance(X, Arr):
            return Opq((name, h[0], akey(X)), None)
        dt = fy.dt if isinstance(fy, Arr) else F8
        if 'SVR' in h[0][1]:
            dt = F8
        return Arr((X.shape[0],), mk_idx(('pred', h[0], akey(X)), (I(0),)), dt)
    return ip.unk('sklearn.' + name)


def init_param_names(ip, cls):
    init = ip.lookup(cls, '__init__')
    if isinstance(init, Func):
        a = init.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
    b = sklearn_base(cls)
    return [k for k, _ in EXT_INIT[b.name]] if b else []


def sk_get_params(ip, o):
    return PDict([(n, ip.getattr(o, n)) for n in sorted(init_param_names(ip, o.cls))])


def sk_set_params(ip, o, kw):
    names = init_param_names(ip, o.cls)
    for k, v in kw.items():
        if k not in names:
            ip.throw('ValueError', 'Invalid parameter')
        ip.setattr(o, k, v)
    return o


def mixin_type(o, mixin):
    """sklearn: the mixin must precede BaseEstimator in the MRO."""
    t = o.cls if isinstance(o, Obj) else o
    names = [c.name for c in t.mro]
    if mixin not in names:
        return False
    return names.index(mixin) < names.index('sklearn.base.BaseEstimator') if 'sklearn.base.BaseEstimator' in names else True


@ext('sklearn.base.is_classifier', 'e')
def sk_is_classifier(ip, e):
    if not isinstance(e, (Obj, TypeV)):
        return ip.unk('is_classifier')
    if isinstance(e, Obj) and ip.lookup(e.cls, '__sklearn_tags__') is not None:
        return ip.unk('custom tags')
    return mixin_type(e, 'sklearn.base.ClassifierMixin')


@ext('sklearn.base.is_regressor', 'e')
def sk_is_regressor(ip, e):
    if not isinstance(e, (Obj, TypeV)):
        return ip.unk('is_regressor')
    if isinstance(e, Obj) and ip.lookup(e.cls, '__sklearn_tags__') is not None:
        return ip.unk('custom tags')
    return mixin_type(e, 'sklearn.base.RegressorMixin')


@ext('sklearn.base.clone', 'e safe=True')
def sk_clone(ip, e, safe):
    if not isinstance(e, Obj):
        return deep_copy(ip, e, {})
    p = ip.call(ip.getattr(e, 'get_params'), [], {'deep': False})
    if not isinstance(p, PDict) or p.concrete() is None:
        return ip.unk('clone')
    return ip.call(e.cls, [], {k: deep_copy(ip, v, {}) if not isinstance(v, Obj) else deep_copy(ip, v, {}) for k, v in p.concrete()})


@_varcall('sklearn.utils.validation.check_X_y')
def sk_check_X_y(ip, args, kw):
    X, y = getarg(args, kw, 0, 'X'), getarg(args, kw, 1, 'y')
    X2 = sk_check_array(ip, [X], {})
    y2 = to_array(ip, y)
    if not isinstance(X2, Arr) or not isinstance(y2, Arr):
        return ip.unk('check_X_y')
    if y2.ndim == 2 and y2.shape[1].const() == 1:
        y2 = ravel(ip, y2)
    if y2.ndim != 1:
        ip.throw('ValueError', 'y should be a 1d array')
    if kw.get('y_numeric') is True and y2.dt.name == 'object':
        y2 = Arr(y2.shape, body_of(y2), F8)
    if not ip.decide(mk_eq(X2.shape[0] - y2.shape[0])):
        ip.throw('ValueError', 'inconsistent numbers of samples')
    return (X2, y2)


@_varcall('sklearn.utils.validation.check_array')
def sk_check_array(ip, args, kw):
    X = to_array(ip, getarg(args, kw, 0, 'array'))
    if not isinstance(X, Arr):
        return ip.unk('check_array')
    if X.ndim != 2 and kw.get('ensure_2d', True) is True:
        ip.throw('ValueError', 'Expected 2D array')
    d = kw.get('dtype')
    if d is not None and d != 'numeric':
        dd = mkdtype(ip, d)
        if dd is not None and dd.name != X.dt.name:
            X = Arr(X.shape, cast_body(ip, body_of(X), X.dt, dd), dd)
    elif X.dt.name == 'object':
        X = Arr(X.shape, body_of(X), F8)
    if kw.get('copy') is True:
        X = Arr(X.shape, body_of(X), X.dt)
    return X


@_varcall('sklearn.utils.validation.check_is_fitted')
def sk_check_is_fitted(ip, args, kw):
    o = args[0]
    at = getarg(args, kw, 1, 'attributes')
    names = [at] if isinstance(at, str) else (list(at) if isinstance(at, tuple) else at.concrete() if isinstance(at, PList) else None)
    if names is None:
        ok = any(isinstance(k, str) and k.endswith('_') and not k.startswith('__') for k in o.s) or '#hist' in o.s
    else:
        ok = all(ip.hasattr(o, n) for n in names)
    if not ok:
        raise PyRaise(mkexc(ip, TYPES_EXT['sklearn.exceptions.NotFittedError']))


ALIAS['sklearn.utils.check_is_fitted'] = 'sklearn.utils.validation.check_is_fitted'
for _n in ('column_or_1d',):
    VARARGS['sklearn.utils.validation.' + _n] = lambda ip, a, k: to_array(ip, a[0])


def obj_len(ip, o):
    return None


def obj_iter(ip, o):
    return None


def obj_getitem(ip, o, i):
    return MISSING


def obj_call(ip, o, args, kw):
    return MISSING
