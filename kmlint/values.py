"""Abstract values of the analysed program."""
from itertools import product
from .terms import (Poly, P, A, F, ZERO, ONE, NAN, sym, subst, csub, tsub, ind, ite,
                    mk_and, mk_or, mk_not, mk_eq, mk_le, mk_lt, mk_any, mk_sum,
                    mk_prod, mk_pred, fn, free, cfree, rk, show, show_cond, fresh_q,
                    is_int, mk_idx, all_atoms, simp)

BIRTH = [0]


def birth():
    BIRTH[0] += 1
    return BIRTH[0]


class Missing:
    def __repr__(self):
        return '<missing>'


MISSING = Missing()


class Mut:
    """Mutable container: all state lives in .s and is changed via Interp.put."""
    __slots__ = ('s', 'b')

    def __init__(self):
        self.s = {}
        self.b = birth()


class Sc:
    """Symbolic scalar number."""
    __slots__ = ('p', 'ty')

    def __init__(self, p, ty='float'):
        self.p = p
        self.ty = ty

    def __repr__(self):
        return 'Sc(%s:%s)' % (show(self.p), self.ty)


class Bo:
    __slots__ = ('c', 'np')

    def __init__(self, c, np=False):
        self.c = c
        self.np = np

    def __repr__(self):
        return 'Bo(%s)' % show_cond(self.c)


class Opq:
    """Opaque value; ty is a TypeV (exact type) or None (anything)."""
    __slots__ = ('key', 'ty')

    def __init__(self, key, ty=None):
        self.key = key
        self.ty = ty

    def __repr__(self):
        return 'Opq(%r)' % (self.key,)


class Unk:
    """Value the analysis lost; anything decided from it is undecided."""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Unk(%s)' % (self.why,)


class Dt:
    """dtype."""
    __slots__ = ('name', 'bad')

    def __init__(self, name, bad=None):
        self.name = name
        self.bad = bad          # exception name raised when cast to float

    def __repr__(self):
        return 'Dt(%s%s)' % (self.name, '!' if self.bad else '')

    def __eq__(self, o):
        return isinstance(o, Dt) and (self.name, self.bad) == (o.name, o.bad)

    def __hash__(self):
        return hash((self.name, self.bad))


F8, I8, B1, OBJ, STR = Dt('float64'), Dt('int64'), Dt('bool'), Dt('object'), Dt('str_')


class Arr(Mut):
    """n-d array.  Content: (body, writes); body is a Poly (or a condition when
    dt is bool) over index placeholders ('i',k)."""
    __slots__ = ('shape', 'dt', 'fmt', 'owner', 'base', 'vmap', 'rav', 'vcond')

    def __init__(self, shape, body, dt=F8, fmt='nd', owner=None, base=None,
                 vmap=None, rav=None):
        Mut.__init__(self)
        self.shape = tuple(P(x) for x in shape)
        self.dt = dt
        self.fmt = fmt
        self.owner = owner
        self.base = base
        self.vmap = vmap
        self.rav = rav          # (his, body over ('i',0..)) for flattened arrays
        self.s['c'] = (body, ())

    @property
    def ndim(self):
        return len(self.shape)

    def root(self):
        a = self
        while a.base is not None:
            a = a.base
        return a

    def __repr__(self):
        return 'Arr(%s, %s, %s%s)' % (
            ','.join(show(x) for x in self.shape), self.dt.name,
            show(body_of(self)) if self.dt.name != 'bool' else show_cond(body_of(self)),
            '' if self.fmt == 'nd' else ' ' + self.fmt)


class UnkBody(Exception):
    def __init__(self, why):
        self.why = why


def I(k):
    return A(('i', k))


def points(shape):
    """All index tuples of a small array of constant shape, else None."""
    tot, rs = 1, []
    for x in shape:
        c = x.const()
        if c is None or c.denominator != 1 or c < 0:
            return None
        tot *= int(c)
        rs.append(range(int(c)))
    if not rs or tot > 16:
        return None
    return list(product(*rs))


def from_table(tab):
    b = ZERO
    for pt, v in tab:
        if v == ZERO:
            continue
        d = ONE
        for k, x in enumerate(pt):
            d = d * ind(mk_eq(I(k) - P(x)))
        b = b + d * v
    return b


_tab = {}


def tabulate(shape, b, ws=()):
    """Normal form of the contents of a small array of constant shape."""
    if not isinstance(b, Poly) or (not ws and len(b.t) < 2):
        return None
    pts = points(shape)
    if pts is None or not (ws or any(a[0] == 'ind' for m, _ in b.t for a, _e in m)):
        return None
    key = (shape, b, ws)
    try:
        if key in _tab:
            return _tab[key]
    except TypeError:
        return None
    tab = []
    for pt in pts:
        mp = {('i', k): P(x) for k, x in enumerate(pt)}
        v = subst(b, mp)
        for c, w in ws:
            if c is None or isinstance(w, Unk):
                return None
            c = csub(c, mp)
            if c is False:
                continue
            w = subst(w, mp) if isinstance(w, Poly) else ind(csub(w, mp))
            v = w if c is True else ite(c, w, v)
        tab.append((pt, v))
    r = from_table(tab)
    if len(_tab) > 20000:
        _tab.clear()
    _tab[key] = r
    return r


def body_of(a):
    """Current body of an array (Poly, cond, or Unk)."""
    if a.base is None and a.dt.name != 'bool':
        t = tabulate(a.shape, *a.s['c'])
        if t is not None:
            return t
    if a.base is not None:
        b = body_of(a.base)
        if isinstance(b, Unk):
            return b
        return bsub(b, {('i', k): e for k, e in enumerate(a.vmap)})
    b, ws = a.s['c']
    for c, v in ws:
        if isinstance(b, Unk):
            return b
        if isinstance(v, Unk) or c is None:
            return v if isinstance(v, Unk) else Unk('write')
        if isinstance(b, Poly):
            b = ite(c, v if isinstance(v, Poly) else ind(v), b)
        else:
            v = v if not isinstance(v, Poly) else mk_not(mk_eq(v))
            b = mk_or(mk_and(c, v), mk_and(mk_not(c), b))
    return b


def bsub(b, mp):
    if isinstance(b, Poly):
        return subst(b, mp)
    if isinstance(b, Unk):
        return b
    return csub(b, mp)


def nbody(a):
    """Numeric body."""
    b = body_of(a)
    if isinstance(b, Unk):
        raise UnkBody(b.why)
    return b if isinstance(b, Poly) else ind(b)


def cbody(a):
    b = body_of(a)
    if isinstance(b, Unk):
        raise UnkBody(b.why)
    return b if not isinstance(b, Poly) else mk_not(mk_eq(b))


class RegArr:
    """Elements of an array selected by a mask/region (fancy indexing): values
    body over ('i',k) of the source shape, restricted to cond; flattened."""
    __slots__ = ('shape', 'cond', 'body', 'dt')

    def __init__(self, shape, cond, body, dt):
        self.shape = shape
        self.cond = cond
        self.body = body
        self.dt = dt

    def __repr__(self):
        return 'RegArr(%s | %s)' % (show(self.body), show_cond(self.cond))


class TriIdx:
    """One of the index arrays of tril/triu_indices (component k)."""
    __slots__ = ('his', 'cond', 'k', 'uid')

    def __init__(self, his, cond, k, uid):
        self.his, self.cond, self.k, self.uid = his, cond, k, uid


class Seg:
    """vars=[] -> one element; else elements val for vars in ranges with cond."""
    __slots__ = ('vars', 'cond', 'val', 'memo')

    def __init__(self, vars_, cond, val):
        self.vars = tuple(vars_)
        self.cond = cond
        self.val = val
        self.memo = {}

    def __repr__(self):
        return 'Seg(%s | %s: %r)' % (', '.join('%s<%s' % (q[1], show(h)) for q, h in self.vars),
                                     show_cond(self.cond), self.val)


class AccSeg:
    __slots__ = ('slot', 'pre')

    def __init__(self, slot, pre):
        self.slot = slot
        self.pre = pre


def one(v):
    return Seg((), True, v)


class PList(Mut):
    __slots__ = ('kind', 'owner')

    def __init__(self, items=(), segs=None, kind='list', owner=None):
        Mut.__init__(self)
        self.s['segs'] = tuple(segs) if segs is not None else tuple(one(v) for v in items)
        self.kind = kind          # list, tuple, set, gen
        self.owner = owner

    @property
    def segs(self):
        return self.s['segs']

    def concrete(self):
        out = []
        for g in self.segs:
            if isinstance(g, AccSeg) or g.vars or g.cond is not True:
                return None
            out.append(g.val)
        return out

    def __repr__(self):
        return 'PList<%s>%r' % (self.kind, list(self.segs))


class Ent:
    """Dictionary entries key->val for vars in ranges with cond; weak: maybe."""
    __slots__ = ('vars', 'cond', 'key', 'val', 'weak')

    def __init__(self, vars_, cond, key, val, weak=None):
        self.vars = tuple(vars_)
        self.cond = cond
        self.key = key
        self.val = val
        self.weak = weak

    def __repr__(self):
        return 'Ent(%r->%r%s)' % (self.key, self.val, ' weak' if self.weak else '')


class PDict(Mut):
    __slots__ = ('owner',)

    def __init__(self, items=(), owner=None):
        Mut.__init__(self)
        self.s['ents'] = tuple(Ent((), True, k, v) for k, v in items)
        self.owner = owner

    @property
    def ents(self):
        return self.s['ents']

    def concrete(self):
        out = []
        for e in self.ents:
            if e.vars or e.cond is not True or e.weak:
                return None
            out.append((e.key, e.val))
        return out

    def __repr__(self):
        return 'PDict%r' % (list(self.ents),)


class AttrDict(PDict):
    """The live __dict__ of an object: reads and writes go to its attributes."""
    __slots__ = ('target',)

    def __init__(self, target):
        PDict.__init__(self)
        self.target = target

    @property
    def ents(self):
        return tuple(Ent((), True, k, v) for k, v in self.target.s.items() if isinstance(k, str) and not k.startswith('#'))


class Obj(Mut):
    """Instance of a class; attributes in .s."""
    __slots__ = ('cls', 'info', 'owner')

    def __init__(self, cls, info=None, owner=None):
        Mut.__init__(self)
        self.cls = cls
        self.info = info
        self.owner = owner

    def __repr__(self):
        return '<%s %s>' % (self.cls.name, self.info or '')


class TypeV:
    """A type (builtin / external)."""

    def __init__(self, name, bases=(), methods=None, short=None):
        self.name = name
        self.bases = tuple(bases)
        self.ns = dict(methods or {})
        self.mro = c3(self)

    def __repr__(self):
        return '<type %s>' % self.name

    def issub(self, o):
        return o in self.mro


class ClassV(Mut, TypeV):
    """A class defined in the analysed repository."""

    def __init__(self, name, bases, module, node):
        Mut.__init__(self)
        self.name = name
        self.bases = tuple(bases)
        self.module = module
        self.node = node
        self.mro = c3(self)

    @property
    def ns(self):
        return self.s

    def __repr__(self):
        return '<class %s>' % self.name


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise ValueError('inconsistent MRO for %s' % cls.name)
        out.append(h)
        for s in seqs:
            if s[0] is h:
                del s[0]
        seqs = [s for s in seqs if s]
    return out


class Func:
    def __init__(self, node, module, closure, name, cls=None, defaults=(), kwdefaults=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.name = name
        self.cls = cls
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.abstract = False

    def __repr__(self):
        return '<func %s>' % self.name


class Bound:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return '<bound %r>' % (self.func,)


class BoundM:
    """Builtin method of a value."""

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name

    def __repr__(self):
        return '<method %s of %r>' % (self.name, self.recv)


class Prop:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset
        self.abstract = getattr(fget, 'abstract', False)


class CachedProp:
    """functools.cached_property: computed at the first access, then an ordinary attribute."""

    def __init__(self, f):
        self.f = f
        self.name = getattr(getattr(f, 'node', None), 'name', None)


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class SuperV:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class ModV(Mut):
    def __init__(self, name, path=None):
        Mut.__init__(self)
        self.name = name
        self.path = path

    def __repr__(self):
        return '<module %s>' % self.name


class Ext:
    """External name (module, function or class) given by its dotted path."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class GlobalsV:
    """The namespace of a module, as returned by globals()."""

    def __init__(self, mod):
        self.mod = mod


class Native:
    """Analyser-defined callable."""

    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __repr__(self):
        return '<native %s>' % self.name


class SliceV:
    def __init__(self, lo, hi, step, key=None):
        self.lo, self.hi, self.step = lo, hi, step
        self.key = key

    def __repr__(self):
        return 'slice(%r,%r,%r)' % (self.lo, self.hi, self.step)


class StrV:
    """Symbolic string, identified by its key; known lower-cased constant maybe."""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return 'StrV(%r)' % (self.key,)


# ------------------------------------------------------------------ keys
def vkey(v, depth=0, seen=None):
    """Canonical hashable key of a value."""
    if depth > 12:
        return ('deep',)
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return ('c', v)
    if isinstance(v, int):
        return ('sc', P(v))
    if isinstance(v, Sc):
        return ('sc', v.p)
    if isinstance(v, Bo):
        if v.c is True or v.c is False:
            return ('c', v.c)
        return ('bo', v.c)
    if isinstance(v, Arr):
        b = body_of(v)
        if isinstance(b, Unk):
            return ('unk', b.why)
        if v.rav is not None:
            return ('arr', v.shape, ('rav',) + tuple(v.rav), v.dt.name, v.fmt)
        return ('arr', v.shape, b, v.dt.name, v.fmt)
    if isinstance(v, RegArr):
        return ('reg', v.shape, v.cond, v.body)
    if isinstance(v, tuple):
        return ('tup',) + tuple(vkey(x, depth + 1, seen) for x in v)
    if isinstance(v, PList):
        return (v.kind,) + tuple(segkey(g, depth + 1, seen) for g in v.segs)
    if isinstance(v, PDict):
        return ('dict',) + tuple(entkey(e, depth + 1, seen) for e in v.ents)
    if isinstance(v, Obj):
        seen = seen or ()
        if v in seen:
            return ('rec', seen.index(v))
        if v.info is not None and v.info[0] in ('kernel', 'member'):
            return ('obj', v.info)
        return ('obj', v.cls.name, v.info) + tuple(
            (k, vkey(x, depth + 1, seen + (v,))) for k, x in sorted(v.s.items(), key=lambda t: str(t[0])))
    if isinstance(v, Opq):
        return ('opq', v.key)
    if isinstance(v, StrV):
        return ('str', v.key)
    if isinstance(v, Unk):
        return ('unk', v.why)
    if isinstance(v, TypeV):
        return ('type', v.name)
    if isinstance(v, Ext):
        return ('ext', v.name)
    if isinstance(v, Dt):
        return ('dt', v.name)
    if isinstance(v, SliceV):
        return ('slice', vkey(v.lo), vkey(v.hi), vkey(v.step))
    if isinstance(v, Func):
        return ('func', v.module.name, v.name, v.node.lineno)
    if isinstance(v, Bound):
        return ('bound', vkey(v.func, depth + 1, seen), vkey(v.self_, depth + 1, seen))
    if isinstance(v, Native):
        return ('native', v.name)
    if isinstance(v, ModV):
        return ('mod', v.name)
    if v is MISSING:
        return ('missing',)
    return ('other', type(v).__name__, repr(v))


def canon_vars(vars_):
    """Rename generic variables canonically for keys."""
    return {q: A(('L', 90 + k, 0)) for k, (q, _h) in enumerate(vars_)}


def segkey(g, depth=0, seen=None):
    if isinstance(g, AccSeg):
        return ('accseg', g.slot)
    if not g.vars:
        k = vkey(g.val, depth, seen)
        return k if g.cond is True else ('seg', g.cond, k)
    mp = canon_vars(g.vars)
    return ('seg', tuple(subst(h, mp) for _, h in g.vars),
            csub(g.cond, mp) if g.cond is not True else True,
            tsub(vkey(g.val, depth, seen), mp))


def entkey(e, depth=0, seen=None):
    mp = canon_vars(e.vars)
    return ('ent', tuple(subst(h, mp) for _, h in e.vars),
            csub(e.cond, mp) if not isinstance(e.cond, bool) else e.cond,
            tsub(vkey(e.key, depth, seen), mp), tsub(vkey(e.val, depth, seen), mp), bool(e.weak))


# ------------------------------------------------------------------ substitution
def vsub(v, mp, memo=None):
    """Substitute index atoms inside a value; containers are copied."""
    if not mp:
        return v
    if isinstance(v, Sc):
        p = subst(v.p, mp)
        return v if p is v.p else Sc(p, v.ty)
    if isinstance(v, Bo):
        c = csub(v.c, mp)
        return Bo(c, v.np)
    if isinstance(v, tuple):
        r = tuple(vsub(x, mp, memo) for x in v)
        return v if all(a is b for a, b in zip(r, v)) else r
    if isinstance(v, (Opq,)):
        k = tsub(v.key, mp)
        return v if k == v.key else Opq(k, v.ty)
    if isinstance(v, StrV):
        k = tsub(v.key, mp)
        return v if k == v.key else StrV(k)
    if isinstance(v, RegArr):
        return RegArr(tuple(subst(x, mp) for x in v.shape), csub(v.cond, mp),
                      bsub(v.body, mp), v.dt)
    if isinstance(v, Bound):
        s = vsub(v.self_, mp, memo)
        return v if s is v.self_ else Bound(v.func, s)
    if not isinstance(v, (Arr, PList, PDict, Obj)):
        return v
    if not mentions(v, set(mp)):
        return v
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, Arr):
        b = body_of(v)
        r = Arr([subst(x, mp) for x in v.shape], bsub(b, mp), v.dt, v.fmt, v.owner)
        if v.rav is not None:
            r.rav = (tuple(subst(x, mp) for x in v.rav[0]), bsub(v.rav[1], mp))
        memo[id(v)] = (r, v)
        return r
    if isinstance(v, PList):
        r = PList(kind=v.kind, owner=v.owner)
        memo[id(v)] = (r, v)
        r.s['segs'] = tuple(g if isinstance(g, AccSeg) else
                            Seg([(q, subst(h, mp)) for q, h in g.vars],
                                csub(g.cond, mp) if g.cond is not True else True,
                                vsub(g.val, mp, memo)) for g in v.segs)
        return r
    if isinstance(v, PDict):
        r = PDict(owner=v.owner)
        memo[id(v)] = (r, v)
        r.s['ents'] = tuple(Ent([(q, subst(h, mp)) for q, h in e.vars],
                                csub(e.cond, mp) if e.cond is not True else True,
                                vsub(e.key, mp, memo), vsub(e.val, mp, memo), e.weak)
                            for e in v.ents)
        return r
    r = Obj(v.cls, tsub(v.info, mp) if v.info else v.info, v.owner)
    memo[id(v)] = (r, v)
    for k, x in v.s.items():
        r.s[k] = vsub(x, mp, memo)
    return r


def mentions(v, atoms, seen=None):
    """Does any of the leaf atoms occur in v?"""
    if isinstance(v, Sc):
        return bool(free(v.p) & atoms)
    if isinstance(v, Bo):
        return bool(cfree(v.c) & atoms)
    if isinstance(v, tuple):
        return any(mentions(x, atoms, seen) for x in v)
    if isinstance(v, (Opq, StrV)):
        return bool(cfree((v.key,)) & atoms)
    if isinstance(v, Arr):
        if any(free(x) & atoms for x in v.shape):
            return True
        b = body_of(v)
        if isinstance(b, Unk):
            return False
        return bool((free(b) if isinstance(b, Poly) else cfree(b)) & atoms)
    if isinstance(v, RegArr):
        return bool((cfree(v.cond) | (free(v.body) if isinstance(v.body, Poly) else cfree(v.body))) & atoms)
    if isinstance(v, (PList, PDict, Obj)):
        seen = seen if seen is not None else set()
        if id(v) in seen:
            return False
        seen.add(id(v))
        if isinstance(v, PList):
            return any(not isinstance(g, AccSeg) and
                       (mentions(g.val, atoms, seen) or bool(cfree((g.cond,)) & atoms)
                        or any(free(h) & atoms for _, h in g.vars)) for g in v.segs)
        if isinstance(v, PDict):
            return any(mentions(e.key, atoms, seen) or mentions(e.val, atoms, seen)
                       or bool(cfree((e.cond,)) & atoms) for e in v.ents)
        if v.info and cfree((v.info,)) & atoms:
            return True
        return any(mentions(x, atoms, seen) for x in v.s.values())
    if isinstance(v, Bound):
        return mentions(v.self_, atoms, seen)
    return False


def freeze(v, memo=None):
    """Deep copy of the mutable part of a value (arrays keep view structure)."""
    if memo is None:
        memo = {}
    if isinstance(v, (Mut,)) and not isinstance(v, ClassV):
        k = id(v)
        if k in memo:
            return memo[k]
        if isinstance(v, Arr):
            n = Arr.__new__(Arr)
            Mut.__init__(n)
            memo[k] = n
            n.shape, n.dt, n.fmt, n.owner, n.vmap, n.rav = v.shape, v.dt, v.fmt, v.owner, v.vmap, v.rav
            n.base = freeze(v.base, memo) if v.base is not None else None
            try:
                n.vcond = v.vcond
            except AttributeError:
                pass
            n.s = dict(v.s)
            return n
        if isinstance(v, PList):
            n = PList((), kind=v.kind, owner=v.owner)
            memo[k] = n
            for s, x in v.s.items():
                n.s[s] = x
            n.s['segs'] = tuple(g if isinstance(g, AccSeg) else Seg(g.vars, g.cond, freeze(g.val, memo))
                                for g in v.segs)
            return n
        if isinstance(v, PDict):
            n = PDict((), owner=v.owner)
            memo[k] = n
            for s, x in v.s.items():
                n.s[s] = x
            n.s['ents'] = tuple(Ent(e.vars, e.cond, freeze(e.key, memo), freeze(e.val, memo), e.weak)
                                for e in v.ents)
            return n
        if isinstance(v, Obj):
            n = Obj(v.cls, v.info, v.owner)
            memo[k] = n
            for s, x in v.s.items():
                n.s[s] = freeze(x, memo)
            return n
        return v
    if isinstance(v, tuple):
        return tuple(freeze(x, memo) for x in v)
    if isinstance(v, Bound):
        return Bound(v.func, freeze(v.self_, memo))
    return v
