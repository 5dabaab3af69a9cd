"""Algebraic normal form for abstract scalar values and conditions.

A scalar is a Laurent polynomial with rational coefficients and rational
exponents over *atoms*.  Atoms are tuples:

  ('sym', name, kind)         free symbol; kind in {'int','real'}
  ('i', k)                    index placeholder of an array body
  ('q', uid)                  loop/generic index
  ('L', level, k)             bound variable
  ('idx', base, (e1,..))      element of a symbolic array
  ('fn', name, args)          uninterpreted/elementary function of scalars
  ('pw', P)                   P with a non positive-integer exponent
  ('pws', P, E)               P raised to a symbolic exponent
  ('num', c)                  rational c under a fractional exponent
  ('sum', his, level, P)      sum over bound variables 0<=L_k<his[k]
  ('prod', his, level, P)     likewise product
  ('ind', literal)            0/1 indicator of a condition literal
  ('kern', k, r1, r2)         opaque kernel function applied to two rows
  ('opq', key)                opaque scalar

Conditions: True/False, ('le',P) P<=0, ('lt',P) P<0, ('eq',P) P==0,
('p',name,...) opaque predicate, ('any',his,level,c), ('not',lit),
('and',(..)), ('or',(..)).
"""
from fractions import Fraction as F
from itertools import permutations
import math

INT_TAGS = {'i', 'q', 'L'}
INT_FN = {'len', 'rangelen', 'floor', 'argmax'}


class TooComplex(Exception):
    pass


_rk = {}


def rk(x):
    """Stable sort key (string) of an atom / monomial."""
    try:
        r = _rk.get(x)
    except TypeError:
        return repr(x)
    if r is None:
        r = repr(x)
        if len(_rk) > 400000:
            _rk.clear()
        _rk[x] = r
    return r


class Poly:
    __slots__ = ('t', '_h', '_r', '_fa')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._r = None
        self._fa = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.t)
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __repr__(self):
        if self._r is None:
            self._r = 'P' + repr(tuple((m, str(c)) for m, c in self.t))
        return self._r

    # -- queries
    def const(self):
        if not self.t:
            return F(0)
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def is_zero(self):
        return not self.t

    def atoms(self):
        return {a for m, _ in self.t for a, _ in m}

    def single_atom(self):
        if len(self.t) == 1:
            m, c = self.t[0]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def lead(self):
        """Leading (first non-constant) coefficient."""
        for m, c in self.t:
            if m:
                return c
        return F(0)

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        d = dict(self.t)
        for m, c in o.t:
            n = d.get(m, 0) + c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return _from(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly(tuple((m, -c) for m, c in self.t))

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if len(self.t) * len(o.t) > 4000:
            raise TooComplex('product too large')
        acc = {}
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                r = mul_mono(m1, m2)
                for m, c in r.t:
                    n = acc.get(m, 0) + c * c1 * c2
                    if n:
                        acc[m] = n
                    else:
                        acc.pop(m, None)
        return _from(acc)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (P(o) ** F(-1))

    def __rtruediv__(self, o):
        return P(o) * (self ** F(-1))

    def __pow__(self, e):
        return power(self, e)


def _from(d):
    return Poly(tuple(sorted(d.items(), key=lambda kv: (kv[0] == (), rk(kv[0])))))


ZERO = Poly(())
ONE = Poly((((), F(1)),))


def A(atom):
    return Poly(((((atom, F(1)),), F(1)),))


NAN = A(('fn', 'nan', ()))
INF = A(('fn', 'inf', ()))
EPS = A(('fn', 'eps', ()))


def P(x):
    if isinstance(x, Poly):
        return x
    if x is True:
        return ONE
    if x is False:
        return ZERO
    if isinstance(x, (int, F)):
        return Poly((((), F(x)),)) if x else ZERO
    if isinstance(x, float):
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return INF if x > 0 else -INF
        return P(F(repr(x)))
    raise TypeError('not a scalar: %r' % (x,))


def sym(name, kind='real'):
    return A(('sym', name, kind))


def mul_mono(m1, m2):
    if not m1:
        return Poly(((m2, F(1)),))
    if not m2:
        return Poly(((m1, F(1)),))
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return norm_mono(d)


def norm_mono(d):
    coef = F(1)
    out = {}
    extra = []
    ex = None
    inds = []
    for a, e in d.items():
        if e == 0:
            continue
        tag = a[0]
        if tag == 'pw' and e.denominator == 1 and e > 0:
            extra.append(power(a[1], e))
        elif tag == 'fn' and a[1] == 'abs' and e.denominator == 1 and e % 2 == 0:
            extra.append(power(a[2][0], e))
        elif tag == 'fn' and a[1] == 'exp':
            x = a[2][0] * P(e)
            ex = x if ex is None else ex + x
        elif tag == 'num' and e.denominator == 1:
            coef *= a[1] ** int(e)
        elif tag == 'ind':
            inds.append(a[1])
        else:
            out[a] = e
    if ex is not None:
        if ex.is_zero():
            pass
        else:
            out[('fn', 'exp', (ex,))] = F(1)
    if inds:
        inds = simp_inds(inds)
        if inds is None:
            return ZERO
        for l in inds:
            out[('ind', l)] = F(1)
    r = Poly(((tuple(sorted(out.items(), key=lambda kv: rk(kv[0]))), coef),)) \
        if out else P(coef)
    for x in extra:
        r = r * x
    return r


def split_const(p):
    """p = form + const ; returns (form, const)."""
    c = F(0)
    rest = []
    for m, k in p.t:
        if m == ():
            c = k
        else:
            rest.append((m, k))
    return Poly(tuple(rest)), c


def simp_inds(lits):
    """Simplify a conjunction of indicator literals (all positive)."""
    best = {}
    eqs = {}
    other = []
    for l in set(lits):
        if l[0] in ('le', 'lt'):
            f, c = split_const(l[1])
            k = (l[0] == 'lt')
            b = best.get(f)
            # f <= -c ; tightest is smallest bound
            bound = (-c, not k)
            if b is None or bound < b[0]:
                best[f] = (bound, l)
        elif l[0] == 'eq':
            f, c = split_const(l[1])
            if f in eqs and eqs[f][0] != c:
                return None
            eqs[f] = (c, l)
        else:
            other.append(l)
    res = list(other)
    for f, (c, l) in eqs.items():
        if f in best:
            (b, strict_ok), _ = best.pop(f)
            v = -c
            if v > b or (v == b and not strict_ok):
                return None
        res.append(l)
    res += [l for _, l in best.values()]
    return res


def iroot(c, e):
    """Exact c**e for rational c>=0 if rational, else None."""
    n, d = e.numerator, e.denominator
    def root(x):
        r = round(x ** (1.0 / d))
        for k in (r - 1, r, r + 1):
            if k >= 0 and k ** d == x:
                return k
        return None
    if c < 0 or c.numerator > 10 ** 15 or c.denominator > 10 ** 15:
        return None
    a, b = root(c.numerator), root(c.denominator)
    if a is None or b is None or (n < 0 and a == 0):
        return None
    return F(a, b) ** n


def nonneg_atom(a):
    if a[0] == 'fn' and a[1] in ('exp', 'abs', 'len', 'max0', 'eps', 'rangelen'):
        return True
    if a[0] == 'ind' or a[0] in INT_TAGS:
        return True
    if a[0] == 'sym' and len(a) > 3 and a[3] == '+':
        return True
    if a[0] == 'pw':
        return nonneg(a[1])
    if a[0] == 'num':
        return True
    if a[0] == 'sum':
        return nonneg(a[3])
    return False


def nonneg(p):
    for m, c in p.t:
        if c < 0:
            return False
        for a, e in m:
            if e.denominator == 1 and e % 2 == 0:
                continue
            if not nonneg_atom(a):
                return False
    return True


def power(p, e):
    if isinstance(e, Poly):
        c = e.const()
        if c is None:
            if p.const() == 1:
                return ONE
            return A(('pws', p, e))
        e = c
    e = F(e) if not isinstance(e, float) else F(repr(e))
    if e == 0:
        return ONE
    if e == 1:
        return p
    c = p.const()
    if c is not None:
        if c == 0:
            if e > 0:
                return ZERO
            return A(('fn', 'divzero', ()))
        if e.denominator == 1:
            return P(c ** int(e))
        r = iroot(c, e)
        if r is not None:
            return P(r)
        if c > 0:
            return Poly((((((('num', c)), e),), F(1)),))
        return Poly((((((('pw', p)), e),), F(1)),))
    if len(p.t) == 1:
        m, c = p.t[0]
        if e.denominator == 1:
            r = norm_mono({a: x * e for a, x in m})
            return r * P(c ** int(e))
        if c > 0:
            cr = iroot(c, e)
            pre = P(cr) if cr is not None else Poly((((((('num', c)), e),), F(1)),))
            res = pre
            for a, x in m:
                if x.denominator == 1 and x % 2 == 0 and not nonneg_atom(a):
                    res = res * norm_mono({('fn', 'abs', (A(a),)): x * e})
                else:
                    res = res * norm_mono({a: x * e})
            return res
        return Poly((((((('pw', p)), e),), F(1)),))
    if e.denominator == 1 and e > 0:
        if e > 6:
            return Poly((((((('pw', p)), e),), F(1)),)) if False else _bigpow(p, e)
        r = ONE
        for _ in range(int(e)):
            r = r * p
        return r
    # negative or fractional exponent of a proper sum: pull out content
    lc = p.t[0][1]
    common = None
    for m, _ in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(x, d[a]) for a, x in common.items()
                      if a in d and (x > 0) == (d[a] > 0)}
    common = {a: x for a, x in (common or {}).items()
              if a[0] != 'ind' and (e.denominator == 1 or nonneg_atom(a))}
    pre = ONE
    if common:
        q = p * norm_mono({a: -x for a, x in common.items()})
        if len(q.t) == len(p.t) and q != p:
            return power(norm_mono(common), e) * power(q, e)
    if e.denominator == 1:
        pre = P(lc ** int(e))
        base = p * P(1 / lc)
    else:
        al = abs(lc)
        cr = iroot(al, e)
        if cr is not None:
            pre = P(cr)
        else:
            pre = Poly((((((('num', al)), e),), F(1)),))
        base = p * P(1 / al)
        if len(base.t) == 1:
            return pre * power(base, e)
    return pre * Poly((((((('pw', base)), e),), F(1)),))


def _bigpow(p, e):
    r = ONE
    for _ in range(int(e)):
        r = r * p
        if len(r.t) > 400:
            raise TooComplex('power too large')
    return r


# ---------------------------------------------------------------- functions
COMM = {'max', 'min', 'pearsonr', 'close2'}


def fn(name, *args):
    args = tuple(a if not isinstance(a, (int, float, F)) or isinstance(a, bool)
                 else P(a) for a in args)
    if name == 'exp':
        p = args[0]
        if p.is_zero():
            return ONE
        return A(('fn', 'exp', (p,)))
    if name == 'log' and args[0].const() == 1:
        return ZERO
    if name == 'abs':
        p = args[0]
        c = p.const()
        if c is not None:
            return P(abs(c))
        if nonneg(p):
            return p
        if len(p.t) == 1:
            m, c = p.t[0]
            r = P(abs(c))
            for a, e in m:
                if nonneg_atom(a) or (e.denominator == 1 and e % 2 == 0):
                    r = r * norm_mono({a: e})
                else:
                    r = r * norm_mono({('fn', 'abs', (A(a),)): e})
            return r
        if p.t[0][1] < 0:
            p = -p
        lc = p.t[0][1]
        return P(lc) * A(('fn', 'abs', (p * P(1 / lc),)))
    if name == 'tanh':
        p = args[0]
        if p.is_zero():
            return ZERO
        if p.t[0][1] < 0:
            return -A(('fn', 'tanh', (-p,)))
        return A(('fn', 'tanh', (p,)))
    if name in ('max', 'min'):
        cs = [a.const() for a in args]
        if all(c is not None for c in cs):
            return P(max(cs) if name == 'max' else min(cs))
        flat = []
        for a in args:
            s = a.single_atom()
            if s and s[0] == 'fn' and s[1] == name:
                flat += list(s[2])
            else:
                flat.append(a)
        flat = sorted(set(flat), key=rk)
        if EPS in flat and len(flat) == 2:
            o = flat[1] if flat[0] == EPS else flat[0]
            c = o.const()
            if c is None and len(o.t) == 1 and o.t[0][0] == ((EPS.single_atom(), F(-2)),) and o.t[0][1] > F(1, 100):
                c = F(1000)
            if c is not None and (c <= 0 or c >= F(1, 2 ** 40)):
                return o if (c > 0) == (name == 'max') else EPS
        if len(flat) == 1:
            return flat[0]
        return A(('fn', name, tuple(flat)))
    if name in COMM:
        args = tuple(sorted(args, key=rk))
    return A(('fn', name, args))


def sqrt(p):
    return power(P(p), F(1, 2))


def absf(p):
    return fn('abs', P(p))


# ---------------------------------------------------------------- conditions
def is_int_atom(a):
    t = a[0]
    if t in INT_TAGS:
        return True
    if t == 'sym':
        return a[2] == 'int'
    if t == 'fn':
        return a[1] in INT_FN
    if t == 'idx':
        b = a[1]
        return isinstance(b, tuple) and len(b) > 0 and b[0] in ('int', 'su', 'sx')
    if t == 'opq':
        return isinstance(a[1], tuple) and len(a[1]) > 0 and a[1][0] == 'int'
    return False


def is_int(p):
    for m, c in p.t:
        if c.denominator != 1:
            return False
        for a, e in m:
            if e.denominator != 1 or e < 0 or not is_int_atom(a):
                return False
    return True


def _content(p):
    g = F(0)
    for m, c in p.t:
        if m:
            g = F(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator),
                  g.denominator * c.denominator) if g else abs(c)
    return abs(g)


def su_diff(p):
    """p = +-(s[e1] - s[e2]) for a strictly increasing integer sequence s."""
    if len(p.t) != 2:
        return None
    (m1, c1), (m2, c2) = p.t
    if len(m1) != 1 or len(m2) != 1 or c1 != -c2 or abs(c1) != 1:
        return None
    (a, x), (b, y) = m1[0], m2[0]
    if x != 1 or y != 1 or a[0] != 'idx' or b[0] != 'idx' or a[1] != b[1]:
        return None
    if not (isinstance(a[1], tuple) and a[1] and a[1][0] == 'su'):
        return None
    d = a[2][0] - b[2][0]
    return d if c1 > 0 else -d


def mk_le(p):
    c = p.const()
    if c is not None:
        return c <= 0
    d = su_diff(p)
    if d is not None:
        return mk_le(d)
    f, k = split_const(p)
    if k == 1:
        d = su_diff(f)
        if d is not None:
            return mk_le(d + ONE)
    if is_int(p):
        f, k = split_const(p)
        g = _content(f)
        if g != 1:
            f = f * P(1 / g)
            # f <= -k/g  -> floor
            b = math.floor(-k / g)
            p = f - P(b)
        if p.lead() > 0:
            return ('le', p)
        return ('not', ('le', -p + ONE))
    l = abs(p.lead())
    p = p * P(1 / l)
    if p.lead() > 0:
        return ('le', p)
    return ('not', ('lt', -p))


def mk_lt(p):
    c = p.const()
    if c is not None:
        return c < 0
    if is_int(p):
        return mk_le(p + ONE)
    l = abs(p.lead())
    p = p * P(1 / l)
    if p.lead() > 0:
        return ('lt', p)
    return ('not', ('le', -p))


def mk_eq(p):
    c = p.const()
    if c is not None:
        return c == 0
    d = su_diff(p)
    if d is not None:
        return mk_eq(d)
    l = p.lead()
    p = p * P(1 / l)
    f, k = split_const(p)
    if is_int(f) and k.denominator != 1 and _content(f) == 1:
        return False
    return ('eq', p)


def mk_not(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == 'not':
        return c[1]
    if c[0] == 'and':
        return mk_or(*[mk_not(x) for x in c[1]])
    if c[0] == 'or':
        return mk_and(*[mk_not(x) for x in c[1]])
    return ('not', c)


def mk_and(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c[0] == 'and':
            out += list(c[1])
        else:
            out.append(c)
    s = []
    for c in out:
        if c not in s:
            s.append(c)
    for c in s:
        if mk_not(c) in s:
            return False
    if not s:
        return True
    if len(s) == 1:
        return s[0]
    return ('and', tuple(sorted(s, key=rk)))


def mk_or(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if c[0] == 'or':
            out += list(c[1])
        else:
            out.append(c)
    s = []
    for c in out:
        if c not in s:
            s.append(c)
    for c in s:
        if mk_not(c) in s:
            return True
    if not s:
        return False
    if len(s) == 1:
        return s[0]
    return ('or', tuple(sorted(s, key=rk)))


def cmp(op, a, b):
    d = P(a) - P(b)
    if op == '<':
        return mk_lt(d)
    if op == '<=':
        return mk_le(d)
    if op == '>':
        return mk_lt(-d)
    if op == '>=':
        return mk_le(-d)
    if op == '==':
        return mk_eq(d)
    if op == '!=':
        return mk_not(mk_eq(d))
    raise ValueError(op)


def ind(c):
    """Indicator polynomial of a condition."""
    if c is True:
        return ONE
    if c is False:
        return ZERO
    t = c[0]
    if t == 'not':
        return ONE - ind(c[1])
    if t == 'and':
        r = ONE
        for x in c[1]:
            r = r * ind(x)
        return r
    if t == 'or':
        return ONE - ind(mk_and(*[mk_not(x) for x in c[1]]))
    return A(('ind', c))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    a, b = P(a), P(b)
    if a == b:
        return a
    i = ind(c)
    return b + (a - b) * i


# ---------------------------------------------------------------- traversal
LEAF = {'sym', 'i', 'q', 'L', 'acc'}


def _tfa(x, s):
    if isinstance(x, Poly):
        s |= free(x)
    elif isinstance(x, tuple):
        for y in x:
            _tfa(y, s)


def free(p):
    """All leaf atoms occurring anywhere in p (bound ones included)."""
    if p._fa is None:
        s = set()
        for m, _ in p.t:
            for a, _e in m:
                if a[0] in LEAF:
                    s.add(a)
                    if a[0] == 'acc':
                        _tfa(a[1:], s)
                else:
                    _tfa(a, s)
        p._fa = frozenset(s)
    return p._fa


def cfree(c):
    s = set()
    _tfa(c, s) if isinstance(c, tuple) else None
    return s


def all_atoms(x, s=None):
    """Every atom (leaf or not) in a poly / key, recursively."""
    if s is None:
        s = set()
    if isinstance(x, Poly):
        for m, _ in x.t:
            for a, _e in m:
                if a not in s:
                    s.add(a)
                    all_atoms(a, s)
    elif isinstance(x, tuple):
        for y in x:
            all_atoms(y, s)
    return s


def subst(p, mp):
    """Simultaneous substitution of leaf atoms."""
    if not mp or not (free(p) & mp.keys()):
        return p
    r = ZERO
    for m, c in p.t:
        t = P(c)
        for a, e in m:
            t = t * power(asub(a, mp), e)
        r = r + t
    return r


def asub(a, mp):
    if a[0] in LEAF:
        if a in mp:
            return P(mp[a])
        if a[0] == 'acc':
            return A(tsub(a, mp))
        return A(a)
    s = set()
    _tfa(a, s)
    if not (s & mp.keys()):
        return A(a)
    return rebuild(a, mp)


def tsub(x, mp):
    if isinstance(x, Poly):
        return subst(x, mp)
    if isinstance(x, tuple):
        return tuple(tsub(y, mp) for y in x)
    return x


_uid = [0]


def fresh_q():
    _uid[0] += 1
    return ('q', _uid[0])


def rebuild(a, mp):
    t = a[0]
    if t == 'pw':
        return subst(a[1], mp)           # exponent applied by caller
    if t == 'pws':
        return power(subst(a[1], mp), subst(a[2], mp))
    if t == 'fn':
        return fn(a[1], *[tsub(x, mp) for x in a[2]])
    if t in ('sum', 'prod'):
        his, lvl, body = a[1], a[2], a[3]
        qs = [fresh_q() for _ in his]
        inner = {('L', lvl, k): A(q) for k, q in enumerate(qs)}
        b = subst(body, inner)
        b = subst(b, mp)
        h = [subst(x, mp) for x in his]
        return (mk_sum if t == 'sum' else mk_prod)(list(zip(qs, h)), b)
    if t == 'bnd':
        his, lvl, body = a[1], a[2], a[3]
        qs = [fresh_q() for _ in his]
        b = subst(subst(body, {('L', lvl, k): A(q) for k, q in enumerate(qs)}), mp)
        return A(_bind('bnd', list(zip(qs, [subst(x, mp) for x in his])), b))
    if t == 'ind':
        return ind(csub(a[1], mp))
    if t == 'kern':
        return kern(a[1], tsub(a[2], mp), tsub(a[3], mp))
    if t == 'idx':
        return mk_idx(tsub(a[1], mp), tuple(subst(x, mp) for x in a[2]))
    return A(tsub(a, mp))


IDX_HOOKS = []


def mk_idx(base, idx):
    return A(('idx', base, idx))


SYM_KERN_SAME = True


def row_base(r):
    if isinstance(r, tuple) and r and r[0] == 'row':
        return r[1]
    return None


def kern(k, r1, r2):
    """Opaque kernel value; kernel functions are symmetric, so rows of the same
    sample are put in canonical order."""
    b1, b2 = row_base(r1), row_base(r2)
    if b1 is not None and b1 == b2 and rk(r2) < rk(r1):
        r1, r2 = r2, r1
    return A(('kern', k, r1, r2))


def csub(c, mp):
    if c is True or c is False:
        return c
    t = c[0]
    if t == 'le':
        return mk_le(subst(c[1], mp))
    if t == 'lt':
        return mk_lt(subst(c[1], mp))
    if t == 'eq':
        return mk_eq(subst(c[1], mp))
    if t == 'not':
        return mk_not(csub(c[1], mp))
    if t == 'and':
        return mk_and(*[csub(x, mp) for x in c[1]])
    if t == 'or':
        return mk_or(*[csub(x, mp) for x in c[1]])
    if t == 'any':
        his, lvl, body = c[1], c[2], c[3]
        qs = [fresh_q() for _ in his]
        b = csub(body, {('L', lvl, k): A(q) for k, q in enumerate(qs)})
        b = csub(b, mp)
        return mk_any([(q, subst(h, mp)) for q, h in zip(qs, his)], b)
    return mk_pred(c[1], *[tsub(x, mp) for x in c[2:]])


def mk_pred(name, *args):
    if name in ('isnan', 'notfinite'):
        x = args[0]
        if isinstance(x, Poly):
            if x.const() is not None or is_int(x):
                return False
            if x == NAN:
                return True
            if x == INF or x == -INF:
                return name == 'notfinite'
    if name == 'close':
        a, b = args
        d = a - b
        if d.is_zero():
            return True
        c = d.const()
        if c is not None and a.const() is not None and b.const() is not None:
            return abs(a.const() - b.const()) <= F(1, 10 ** 8) + F(1, 10 ** 5) * abs(b.const())
        args = tuple(sorted((a, b), key=rk))
    return ('p', name) + args


def max_level(x):
    m = 0
    s = set()
    _tfa(x, s)
    for a in s:
        if a[0] == 'L' and a[1] > m:
            m = a[1]
    return m


def depends(p, qs):
    return bool(free(p) & qs)


def solve_eq(p, q):
    """Solve p==0 for index atom q if p is linear in q with coefficient +-1."""
    coef = None
    rest = []
    for m, c in p.t:
        d = dict(m)
        if q in d:
            if len(m) != 1 or d[q] != 1 or abs(c) != 1:
                return None
            coef = c
        else:
            for a, e in m:
                s = set()
                _tfa((a,), s)
                if a[0] not in LEAF and q in s:
                    return None
            rest.append((m, c))
    if coef is None:
        return None
    return Poly(tuple(rest)) * P(-1 / coef)


def small(hi):
    c = hi.const() if isinstance(hi, Poly) else None
    return int(c) if c is not None and 0 <= c <= 4 and c.denominator == 1 else None


def mk_sum(vars_, body):
    """Sum of body over vars_ = [(qatom, hi)] each 0<=q<hi."""
    if not vars_:
        return body
    # peel one variable at a time from the inside
    (q, hi), outer = vars_[-1], vars_[:-1]
    u = small(hi)
    if u is not None:
        res = ZERO
        for v in range(u):
            res = res + subst(body, {q: P(v)})
        return mk_sum(outer, res) if outer else res
    res = ZERO
    groups = ZERO
    for m, c in body.t:
        dep, indep = [], P(c)
        for a, e in m:
            s = set()
            _tfa(((a,),), s)
            if a[0] in LEAF:
                s.add(a)
            if q in s:
                dep.append((a, e))
            else:
                indep = indep * norm_mono({a: e})
        if not dep:
            res = res + indep * hi
            continue
        # delta elimination
        done = False
        for a, e in dep:
            if a[0] == 'ind' and a[1][0] == 'eq':
                v = solve_eq(a[1][1], q)
                if v is not None:
                    rest = ONE
                    for b, x in dep:
                        if b != a:
                            rest = rest * power(asub(b, {q: v}), x)
                    res = res + indep * rest
                    done = True
                    break
        if done:
            continue
        res = res + indep * _sum1(q, hi, dep)
    return mk_sum(outer, res) if outer else res


def _sum1(q, hi, dep):
    """One product of factors all depending on q, summed over q."""
    vs = [(q, hi)]
    body = ONE
    for a, e in dep:
        if a[0] == 'sum' and e.denominator == 1 and 1 <= e <= 3:
            for _ in range(int(e)):
                qs = [fresh_q() for _ in a[1]]
                b = subst(a[3], {('L', a[2], k): A(x) for k, x in enumerate(qs)})
                vs += list(zip(qs, a[1]))
                body = body * b
        else:
            body = body * norm_mono({a: e})
    if len(vs) > 1 and any(depends(h, {q}) for _, h in vs):
        pass
    return A(_bind('sum', vs, body))


def _bind(tag, vs, body):
    is_c = not isinstance(body, Poly)
    lvl = 1 + max(max_level(body), max([max_level(h) for _, h in vs] or [0]))
    best = None
    perms = permutations(vs) if len(vs) <= 4 else [vs]
    for perm in perms:
        mp = {q: A(('L', lvl, k)) for k, (q, _) in enumerate(perm)}
        b = csub(body, mp) if is_c else subst(body, mp)
        his = tuple(subst(h, mp) for _, h in perm)
        cand = (tag, his, lvl, b)
        k = rk(cand)
        if best is None or k < best[0]:
            best = (k, cand)
    return best[1]


def mk_prod(vars_, body):
    if not vars_:
        return body
    for k, (q, h) in enumerate(vars_):
        u = small(h)
        if u is not None and not any(q in free(h2) for _, h2 in vars_):
            rest = vars_[:k] + vars_[k + 1:]
            r = ONE
            for v in range(u):
                r = r * mk_prod(rest, subst(body, {q: P(v)}))
            return r
    qs = {q for q, _ in vars_}
    if not depends(body, qs):
        n = ONE
        for _, h in vars_:
            n = n * h
        return power(body, n)
    if len(body.t) == 1:
        m, c = body.t[0]
        out = ONE
        n = ONE
        for _, h in vars_:
            n = n * h
        if c != 1:
            out = out * power(P(c), n)
        for a, e in m:
            x = A(a)
            if depends(x, qs):
                out = out * power(A(_bind('prod', vars_, x)), e)
            else:
                out = out * power(x, n * P(e))
        return out
    return A(_bind('prod', vars_, body))


def cfree_p(h):
    return free(h)


def mk_any(vars_, c):
    if c is True or c is False:
        return c
    if not vars_:
        return c
    for k, (q, h) in enumerate(vars_):
        u = small(h)
        if u is not None and not any(q in free(h2) for _, h2 in vars_):
            rest = vars_[:k] + vars_[k + 1:]
            return mk_or(*[mk_any(rest, csub(c, {q: P(v)})) for v in range(u)])
    qs = {q for q, _ in vars_}
    if c[0] == 'or':
        return mk_or(*[mk_any(vars_, x) for x in c[1]])
    if has_arith(c):
        c = csimp(c, range_facts(vars_))
        if c is True:
            # the range must be non-empty
            return mk_and(*[mk_lt(-h) for _, h in vars_]) if not any(
                cfree_p(h) & qs for _, h in vars_) else _bind('any', list(vars_), mk_le(ZERO - ONE) or True)
        if c is False:
            return False
        if c[0] == 'or':
            return mk_or(*[mk_any(vars_, x) for x in c[1]])
    fr = cfree(c)
    used = [(q, h) for q, h in vars_ if q in fr]
    if len(used) < len(vars_):
        return mk_any(used, c)
    if c[0] == 'and':
        ind_ = [x for x in c[1] if not (cfree(x) & qs)]
        dep = [x for x in c[1] if cfree(x) & qs]
        # distribute over an inner disjunction
        for x in dep:
            if x[0] == 'or':
                rest = [y for y in dep if y is not x]
                return mk_and(*ind_, mk_or(*[mk_any(vars_, mk_and(y, *rest)) for y in x[1]]))
        for x in dep:
            if x[0] == 'eq':
                for q, h in vars_:
                    v = solve_eq(x[1], q)
                    if v is not None:
                        rest = mk_and(*[csub(y, {q: v}) for y in dep if y is not x])
                        rng = mk_and(mk_le(-v), mk_lt(v - h))
                        others = [u for u in vars_ if u[0] != q]
                        if free(v) & {u[0] for u in others}:
                            return mk_and(*ind_, mk_any(others, mk_and(rng, rest)))
                        return mk_and(*ind_, rng, mk_any(others, rest))
        if ind_:
            return mk_and(*ind_, mk_any(vars_, mk_and(*dep)))
    if c[0] == 'any':
        ph = [fresh_q() for _ in c[1]]
        b = csub(c[3], {('L', c[2], k): A(x) for k, x in enumerate(ph)})
        return mk_any(list(vars_) + list(zip(ph, c[1])), b)
    if c[0] == 'eq' and len(vars_) == 1:
        v = solve_eq(c[1], vars_[0][0])
        if v is not None:
            return mk_and(mk_le(-v), mk_lt(v - vars_[0][1]))
    return _bind('any', list(vars_), c)


def mk_all(vars_, c):
    return mk_not(mk_any(vars_, mk_not(c)))


# ---------------------------------------------------------------- equality
def clear_denoms(p):
    for _ in range(6):
        worst = {}
        for m, _c in p.t:
            for a, e in m:
                if a[0] == 'pw' and e < 0:
                    k = -math.floor(e)
                    worst[a] = max(worst.get(a, 0), k)
        if not worst:
            return p
        a, k = sorted(worst.items(), key=lambda kv: rk(kv[0]))[0]
        f = Poly(((((a, F(k)),), F(1)),))
        # multiply by a**k, keeping the exponent symbolic per monomial
        acc = ZERO
        for m, c in p.t:
            d = dict(m)
            d[a] = d.get(a, F(0)) + k
            acc = acc + norm_mono(d) * P(c)
        p = acc
    return p


def equal(a, b):
    a, b = P(a), P(b)
    d = a - b
    if d.is_zero():
        return True
    try:
        return clear_denoms(d).is_zero()
    except TooComplex:
        return False


# ---------------------------------------------------------------- facts
class Facts:
    depth = 0
    """Conjunction of decided literals, with difference-bound reasoning for
    integer forms."""

    def __init__(self):
        self.lit = {}
        self.bounds = []      # list of (form, ub) : form <= ub for integer forms

    def copy(self):
        f = Facts()
        f.lit = dict(self.lit)
        f.bounds = list(self.bounds)
        return f

    # difference graph edges: x - y <= c
    def _edges(self):
        es = {}
        def add(x, y, c):
            k = (x, y)
            if k not in es or c < es[k]:
                es[k] = c
        atoms = set()
        for f, ub in self.bounds:
            d = diff_form(f)
            if d is None:
                continue
            x, y = d
            atoms |= {x, y}
            add(x, y, ub)
        return es, atoms

    def upper(self, form):
        """Best known upper bound of an integer form (no constant), or None."""
        best = None
        for f, ub in self.bounds:
            if f == form and (best is None or ub < best):
                best = ub
        d = diff_form(form)
        if d is None:
            # sum of two bounded forms
            return best
        src, dst = d
        es, atoms = self._edges()
        for a in (src, dst):
            atoms = atoms | {a}
        for a in atoms:
            if a is not None and a[0] in ('L', 'i', 'q') or (a and a[0] == 'fn' and a[1] in ('len', 'rangelen')):
                k = (None, a)
                if k not in es or es[k] > 0:
                    es[k] = F(0)          # -a <= 0
        # shortest path: src - dst <= c
        dist = {src: F(0)}
        for _ in range(len(atoms) + 2):
            ch = False
            for (x, y), c in es.items():
                if x in dist and (y not in dist or dist[x] + c < dist[y]):
                    dist[y] = dist[x] + c
                    ch = True
            if not ch:
                break
        if dst in dist and (best is None or dist[dst] < best):
            best = dist[dst]
        return best

    def decide(self, c):
        """True/False if implied, else None."""
        if c is True or c is False:
            return c
        t = c[0]
        if t == 'not':
            r = self.decide(c[1])
            return None if r is None else (not r)
        if t == 'and':
            res = True
            for x in c[1]:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    res = None
            if res is None and self.lit.get(c) is not None:
                return self.lit[c]
            return res
        if t == 'or':
            res = False
            for x in c[1]:
                r = self.decide(x)
                if r is True:
                    return True
                if r is None:
                    res = None
            if res is None and self.lit.get(c) is not None:
                return self.lit[c]
            return res
        if c in self.lit:
            return self.lit[c]
        if t == 'p' and c[1] == 'isnan' and self.lit.get(('p', 'notfinite') + c[2:]) is False:
            return False
        if t == 'p' and c[1] == 'notfinite' and self.lit.get(('p', 'isnan') + c[2:]) is True:
            return True
        if t == 'le' and is_int(c[1]):
            f, k = split_const(c[1])
            ub = self.upper(f)
            if ub is not None and ub <= -k:
                return True
            lb = self.upper(-f)
            if lb is not None and -lb > -k:
                return False
        if t == 'eq':
            p = c[1]
            f, k = split_const(p)
            if is_int(f):
                ub = self.upper(f)
                lb = self.upper(-f)
                if ub is not None and ub < -k:
                    return False
                if lb is not None and -lb > -k:
                    return False
                if ub is not None and lb is not None and ub == -k and -lb == -k:
                    return True
        if t == 'any' and Facts.depth < 2:
          Facts.depth += 1
          try:
            # exists over bounded domain: decide body on the generic element
            his, lvl, b = c[1], c[2], c[3]
            f2 = self.copy()
            for k, h in enumerate(his):
                q = ('L', lvl, k)
                f2.add(mk_lt(A(q) - h), True)
                f2.add(mk_le(-A(q)), True)
            r = f2.decide(b)
            if r is False:
                return False
            # instantiate universally quantified facts
            for l, v in self.lit.items():
                if v is False and l[0] == 'any' and len(l[1]) == len(his):
                    if l[1] == his:
                        mp = {('L', l[2], k): A(('L', lvl, k)) for k in range(len(his))}
                        f2.add(csub(l[3], mp), False)
            r = f2.decide(b)
            if r is False:
                return False
            f3 = f2.copy()
            if not f3.add(b, True):
                return False
          finally:
            Facts.depth -= 1
        return None

    def add(self, c, val=True):
        """Assume c == val. Returns False if contradictory."""
        if val is False:
            c = mk_not(c)
        d = self.decide(c)
        if d is True:
            return True
        if d is False:
            return False
        t = c[0]
        if t == 'and':
            for x in c[1]:
                if not self.add(x, True):
                    return False
            return True
        if t == 'or':
            self.lit[c] = True
            und = [x for x in c[1] if self.decide(x) is not False]
            if len(und) == 1:
                return self.add(und[0], True)
            return True
        if t == 'not':
            l, v = c[1], False
        else:
            l, v = c, True
        self.lit[l] = v
        if l[0] == 'le' and is_int(l[1]):
            f, k = split_const(l[1])
            if v:
                self.bounds.append((f, -k))
            else:
                self.bounds.append((-f, k - 1))
        elif l[0] == 'eq' and v:
            f, k = split_const(l[1])
            if is_int(f):
                self.bounds.append((f, -k))
                self.bounds.append((-f, k))
        # revisit stored disjunctions
        for o, ov in list(self.lit.items()):
            if ov is True and o[0] == 'or':
                und = [x for x in o[1] if self.decide(x) is not False]
                if not und:
                    return False
                if len(und) == 1 and self.decide(und[0]) is None:
                    if not self.add(und[0], True):
                        return False
        return True


def csimp(c, facts):
    """Simplify a condition under facts."""
    if c is True or c is False:
        return c
    r = facts.decide(c)
    if r is not None:
        return r
    t = c[0]
    if t == 'and':
        xs = [csimp(x, facts) for x in c[1]]
        if any(x is False for x in xs):
            return False
        xs = [x for x in xs if x is not True]
        # drop conjuncts implied by the others
        k = 0
        while k < len(xs) and len(xs) > 1:
            if has_arith(xs[k]):
                f = facts.copy()
                if not all(f.add(y, True) for j, y in enumerate(xs) if j != k):
                    return False
                r = f.decide(xs[k])
                if r is False:
                    return False
                if r is True:
                    del xs[k]
                    continue
            k += 1
        return mk_and(*xs)
    if t == 'or':
        return mk_or(*[csimp(x, facts) for x in c[1]])
    if t == 'not':
        return mk_not(csimp(c[1], facts))
    return c


def range_facts(vars_):
    f = Facts()
    for q, h in vars_:
        f.add(mk_le(-A(q)), True)
        f.add(mk_lt(A(q) - h), True)
    return f


def has_arith(c):
    if isinstance(c, bool):
        return False
    if c[0] in ('le', 'lt', 'eq'):
        return True
    if c[0] in ('and', 'or'):
        return any(has_arith(x) for x in c[1])
    if c[0] == 'not':
        return has_arith(c[1])
    return False


def diff_form(f):
    """form = x - y as (x, y) with None for the zero node, else None."""
    pos, neg = [], []
    for m, c in f.t:
        if len(m) != 1 or m[0][1] != 1:
            return None
        if c == 1:
            pos.append(m[0][0])
        elif c == -1:
            neg.append(m[0][0])
        else:
            return None
    if len(pos) > 1 or len(neg) > 1:
        return None
    return (pos[0] if pos else None, neg[0] if neg else None)


def simp(p, facts):
    """Simplify indicator atoms of p decided by facts."""
    mp = {}
    for a in all_atoms(p):
        if a[0] == 'ind':
            r = facts.decide(a[1])
            if r is not None:
                mp[a] = ONE if r else ZERO
    if not mp:
        return p
    return _simp(p, mp)


def _simp(p, mp):
    r = ZERO
    for m, c in p.t:
        t = P(c)
        for a, e in m:
            if a in mp:
                t = t * power(mp[a], e) if not mp[a].is_zero() else ZERO
            elif a[0] in LEAF:
                t = t * norm_mono({a: e})
            else:
                na = _simp_key(a, mp)
                if na == a:
                    t = t * norm_mono({a: e})
                else:
                    t = t * power(rebuild(na, {('__none__',): ZERO}) if na[0] != 'pw' else na[1], e)
        r = r + t
    return r


def _simp_key(x, mp):
    if isinstance(x, Poly):
        return _simp(x, mp)
    if isinstance(x, tuple):
        return tuple(_simp_key(y, mp) for y in x)
    return x


# ---------------------------------------------------------------- printing
def show(x):
    """Human-readable form."""
    if isinstance(x, Poly):
        if not x.t:
            return '0'
        out = []
        for m, c in x.t:
            fs = []
            for a, e in m:
                s = show_atom(a)
                fs.append(s if e == 1 else '%s^%s' % (s, e if e.denominator == 1 else '(%s)' % e))
            if not fs:
                out.append(str(c))
            elif c == 1:
                out.append('*'.join(fs))
            elif c == -1:
                out.append('-' + '*'.join(fs))
            else:
                out.append(str(c) + '*' + '*'.join(fs))
        return ' + '.join(out).replace('+ -', '- ')
    if isinstance(x, bool) or x is None:
        return str(x)
    if isinstance(x, tuple):
        return show_cond(x)
    return str(x)


def show_atom(a):
    t = a[0]
    if t == 'sym':
        return str(a[1])
    if t == 'i':
        return 'ij'[a[1]] if a[1] < 2 else 'i%d' % a[1]
    if t == 'q':
        return 'q%d' % a[1]
    if t == 'L':
        return 'v%d%s' % (a[1], '_%d' % a[2] if a[2] else '')
    if t == 'idx':
        return '%s[%s]' % (show_key(a[1]), ','.join(show(e) for e in a[2]))
    if t == 'fn':
        return '%s(%s)' % (a[1], ', '.join(show(e) for e in a[2]))
    if t == 'pw':
        return '(%s)' % show(a[1])
    if t == 'pws':
        return '(%s)**(%s)' % (show(a[1]), show(a[2]))
    if t in ('sum', 'prod'):
        return '%s_{v%d<%s}(%s)' % (t, a[2], ','.join(show(h) for h in a[1]), show(a[3]))
    if t == 'ind':
        return '[%s]' % show_cond(a[1])
    if t == 'kern':
        return 'k(%s, %s)' % (show_key(a[2]), show_key(a[3]))
    return show_key(a)


def show_key(k):
    if isinstance(k, Poly):
        return show(k)
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == 'row':
            return '%s[%s,:]' % (show_key(k[1]), show(k[2]))
        return '(' + ' '.join(show_key(x) for x in k) + ')'
    return str(k)


def show_cond(c):
    if isinstance(c, bool) or c is None:
        return str(c)
    t = c[0] if c else None
    if t == 'le':
        return show(c[1]) + ' <= 0'
    if t == 'lt':
        return show(c[1]) + ' < 0'
    if t == 'eq':
        return show(c[1]) + ' == 0'
    if t == 'not':
        return 'not(%s)' % show_cond(c[1])
    if t in ('and', 'or'):
        return '(' + (' %s ' % t).join(show_cond(x) for x in c[1]) + ')'
    if t == 'any':
        return 'any v%d<%s: %s' % (c[2], ','.join(show(h) for h in c[1]), show_cond(c[3]))
    if t == 'p':
        return '%s(%s)' % (c[1], ', '.join(show_key(x) for x in c[2:]))
    return show_key(c)
