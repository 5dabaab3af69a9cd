"""Random interpretation of normal forms.

Terms and conditions produced by the analysis are evaluated at pseudo-random
points (free symbols, array elements, opaque kernel values).  Nothing of the
analysed program is run: only normal forms are evaluated.  The points are used
(a) to confirm that a path condition is satisfiable before anything is reported
on that path, and (b) to tell apart two terms whose normal forms differ.
"""
import hashlib
import itertools
import math
import random
from .terms import Poly, P, A, F, is_int_atom, rk


class EvalFail(Exception):
    pass


def h01(*key):
    d = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'big') / 2.0 ** 64


def rnd(x):
    if isinstance(x, bool):
        return float(x)
    if isinstance(x, (int, float)):
        if x != x:
            return 'nan'
        if x in (math.inf, -math.inf):
            return str(x)
        if x == 0:
            return 0.0
        return float('%.7g' % x)
    return x


KNOWN_FN = {'exp', 'log', 'abs', 'tanh', 'max', 'min', 'nan', 'inf', 'floor', 'mod', 'round', 'trunc',
            'len', 'rangelen', 'maxover', 'minover', 'argmax', 'argmin', 'real', 'imag', 'divzero', 'eps', 'sign',
            'max0', 'sqrt', 'pearsonr', 'pearsonsel', 'nanzero'}
KNOWN_FN |= {'wrap_%sint%d' % (u, w) for u in ('', 'u') for w in (8, 16, 32, 64)}     # overflowing arithmetic: any value

PICK = [0.0, 1.0, -1.0, 2.0, 0.5]


class Val:
    """One valuation."""

    def __init__(self, seed, ints=None, reals=None, mode=0):
        self.seed = seed
        self.exact = False
        self.r = random.Random(seed)
        self.mode = mode
        self.syms = {}
        self.table = {}          # forced predicates
        self.real = {}           # forced reals
        self.ints = dict(ints or {})
        self.reals = dict(reals or {})
        self.slices = {}
        self.kv = {}
        self.eta, self.saw = 0.7731, False
        self.env = {}
        self.steps = 0
        self.maxdim = 1 + seed % 4

    # ---------------------------------------------------------- symbols
    def symbol(self, a):
        if a in self.syms:
            return self.syms[a]
        name = a[1]
        if isinstance(name, tuple) and name and name[0] in ('slo', 'shi', 'slstart', 'slstop', 'slstep'):
            v = self.slice_sym(name)
        elif a[2] == 'int':
            if name in self.ints:
                lo, hi = self.ints[name]
                v = self.r.randint(lo, hi)
            elif isinstance(name, str) and len(name) == 1 and name in 'nmdps':
                v = self.r.randint(1, self.maxdim + (name == 'm'))
            else:
                v = self.r.choice([0, 0, 1, 1, 2, 2, 3, -1, 4, 5, -2])
        else:
            if name in self.reals:
                v = self.reals[name](self.r)
            else:
                v = self.r.choice(PICK) if self.r.random() < 0.25 else self.r.uniform(-2, 3)
        self.syms[a] = v
        return v

    def slice_sym(self, name):
        key = repr(name[1])
        if key not in self.slices:
            o = [None, 0, 1, 2, -1, 3, -2, 7]
            self.slices[key] = slice(self.r.choice(o), self.r.choice(o), self.r.choice([None, 1, 1, 2, -1, 3, -2]))
        s = self.slices[key]
        st = 1 if s.step is None else s.step
        if name[0] == 'slstep':
            return st
        dim = int(self.p(name[2]))
        a, b, _ = s.indices(max(dim, 0))
        return a if name[0] in ('slo', 'slstart') else b

    # ---------------------------------------------------------- polynomials
    def num(self, x):
        """Value of a term; NaN when it depends on an undefined value."""
        se, ss = self.eta, self.saw
        self.eta, self.saw = 0.7731, False
        try:
            r = self.p(x)
            if not self.saw:
                return r
            self.eta = -0.3137
            r2 = self.p(x)
            if r != r or abs(r - r2) > 1e-9 * (1 + abs(r)):
                return math.nan
            return r
        finally:
            self.eta, self.saw = se, ss

    def p(self, x):
        self.steps += 1
        if self.steps > 400000:
            raise EvalFail('too long')
        tot = 0.0
        for m, c in self.active(x):
            v = c.numerator / c.denominator if c.denominator != 1 else float(c.numerator)
            dz = False
            for a, e in m:
                y = self.atom(a)
                if e == 1:
                    v *= y
                elif e < 0 and abs(y) < 1e-14:
                    dz = True
                else:
                    v *= self.pw(y, e)
            if dz:
                if v == 0:
                    self.saw = True
                    k = tuple((rk(a), e) for a, e in m)
                    v = float(c) * self.eta * (1 + h01(k))          # 0/0
                else:
                    v = v * 1e30
            tot += v
        return tot

    def active(self, x):
        """Terms whose indicators hold, like terms collected (so that a term
        switched off by 1 - [c] is not evaluated)."""
        if not any(a[0] == 'ind' for m, _ in x.t for a, _e in m):
            return x.t
        known, out = {}, {}
        for m, c in x.t:
            rest = []
            for a, e in m:
                if a[0] == 'ind':
                    r = known.get(a[1])
                    if r is None:
                        r = known[a[1]] = self.c(a[1])
                    if not r:
                        break
                else:
                    rest.append((a, e))
            else:
                k = tuple(rest)
                out[k] = out.get(k, 0) + c
        return [(m, c) for m, c in out.items() if c]

    def pw(self, y, e):
        e = float(e)
        if y == 0 and e < 0:
            raise EvalFail('division by zero')
        if y < 0 and e != int(e):
            raise EvalFail('root of negative')
        try:
            return y ** (int(e) if e == int(e) else e)
        except OverflowError:
            raise EvalFail('overflow')

    def iv(self, x):
        v = self.p(x)
        k = round(v)
        if abs(v - k) > 1e-6:
            raise EvalFail('not an integer')
        return k

    def atom(self, a):
        t = a[0]
        if t in ('i', 'q', 'L'):
            if a not in self.env:
                raise EvalFail('unbound %r' % (a,))
            return self.env[a]
        if t == 'sym':
            return self.symbol(a)
        if t == 'idx':
            return self.idx(a)
        if t == 'fn':
            return self.fn(a[1], a[2])
        if t == 'pw':
            return self.p(a[1])
        if t == 'pws':
            return self.pw(self.p(a[1]), self.p(a[2]))
        if t == 'num':
            return float(a[1])
        if t == 'sum':
            s = 0.0
            for _ in self.loop(a[1], a[2]):
                s += self.p(a[3])
            return s
        if t == 'prod':
            s = 1.0
            for _ in self.loop(a[1], a[2]):
                s *= self.p(a[3])
            return s
        if t == 'ind':
            return 1.0 if self.c(a[1]) else 0.0
        if t == 'kern':
            return self.kern(a[1], self.key(a[2]), self.key(a[3]))
        if t == 'opq':
            k = self.key(a[1])
            if isinstance(a[1], tuple) and a[1] and a[1][0] == 'int':
                return int(h01(self.seed, 'opqi', k) * 5)
            return self.hv('opq', k)
        if t == 'bnd':
            return self.hv('bnd', self.bound(a))
        raise EvalFail('atom %s' % t)

    def hv(self, *k):
        u = h01(self.seed, *k)
        if self.mode % 3 == 2:
            # small integers: coincidences (zeros, ties, opposite signs) happen
            return (-2.0, -1.0, -1.0, 0.0, 0.0, 1.0, 1.0, 2.0)[int(u * 8)]
        if self.mode % 12 == 7:
            return 40 * (-2 + 5 * h01(self.seed, 'v', *k))
        if u < 0.08:
            return 0.0
        if u < 0.12:
            return 1.0
        return -2 + 5 * h01(self.seed, 'v', *k)

    def kkey(self, a):
        r1, r2 = self.key(a[2]), self.key(a[3])
        try:
            if r1[1] == r2[1] and repr(r2) < repr(r1):
                r1, r2 = r2, r1
        except Exception:
            pass
        return ('kern', a[1], r1, r2)

    def kern(self, k, r1, r2):
        if self.kv:
            a, b = r1, r2
            try:
                if a[1] == b[1] and repr(b) < repr(a):
                    a, b = b, a
            except Exception:
                pass
            x = self.kv.get(('kern', k, a, b))
            if x is not None:
                return x
        if self.mode % 8 == 5 and h01(self.seed, 'constk', k) < 0.6:
            return 0.3 + h01(self.seed, 'cst', k)
        if r1 == r2:
            return 0.5 + 2 * h01(self.seed, 'k', k, r1)
        try:
            if r1[1] == r2[1] and repr(r2) < repr(r1):
                r1, r2 = r2, r1
        except Exception:
            pass
        return -1 + 2 * h01(self.seed, 'k', k, r1, r2)

    def loop(self, his, lvl):
        saved = {('L', lvl, k): self.env.get(('L', lvl, k)) for k in range(len(his))}

        def go(k):
            if k == len(his):
                yield
                return
            h = self.iv(his[k])
            if h > 260:
                raise EvalFail('range too long')
            for v in range(h):
                self.env[('L', lvl, k)] = v
                yield from go(k + 1)
        try:
            yield from go(0)
        finally:
            for a, v in saved.items():
                if v is None:
                    self.env.pop(a, None)
                else:
                    self.env[a] = v

    def bound(self, a):
        out = []
        for _ in self.loop(a[1], a[2]):
            out.append(rnd(self.num(a[3])) if isinstance(a[3], Poly) else self.c(a[3]))
        return tuple(out)

    def elems(self, key):
        """Elements of a sequence key (tuple of segment keys)."""
        out = []
        for g in key:
            if g[0] == 'sc':
                out.append(rnd(self.num(g[1])))
            elif g[0] == 'c' and isinstance(g[1], (int, float)):
                out.append(float(g[1]))
            elif g[0] == 'seg' and len(g) == 4 and g[3][0] == 'sc':
                his = g[1]
                saved = dict(self.env)

                def go(k):
                    if k == len(his):
                        if g[2] is True or self.c(g[2]):
                            out.append(rnd(self.num(g[3][1])))
                        return
                    for v in range(self.iv(his[k])):
                        self.env[('L', 90 + k, 0)] = v
                        go(k + 1)
                try:
                    go(0)
                finally:
                    self.env = saved
            else:
                raise EvalFail('sequence')
        return out

    def seq(self, base):
        """Concrete contents of a derived sequence base, or None."""
        if base[0] in ('su', 'suf'):
            return sorted(set(self.elems(base[1])))
        if base[0] == 'sorted':
            return sorted(self.elems(base[1]))
        if base[0] == 'sx':
            s = sorted(set(self.elems(base[1][1])))
            return sorted(s, key=lambda x: h01(self.seed, 'ord', x))
        if base[0] == 'ravel':
            his = base[1]
            out = []
            dims = [self.iv(x) for x in his]
            saved = dict(self.env)
            for ix in itertools.product(*[range(x) for x in dims]):
                for k, v in enumerate(ix):
                    self.env[('L', 210 + k, 0)] = v
                out.append(self.p(base[2]))
            self.env = saved
            return out
        return None

    def idx(self, a):
        base, ix = a[1], a[2]
        iv = tuple(self.iv(x) for x in ix)
        if isinstance(base, tuple) and base and base[0] in ('su', 'suf', 'sorted', 'sx', 'ravel'):
            s = self.seq(base)
            if not 0 <= iv[0] < len(s):
                raise EvalFail('index out of sequence')
            return s[iv[0]]
        if isinstance(base, tuple) and base and base[0] == 'int':
            f = self.real.get((base, iv))
            if f is not None:
                return f
            n = self.syms.get(('sym', 'n', 'int'), 3)
            u = h01(self.seed, 'int', base, iv)
            if u < 0.8:
                return int(h01(self.seed, 'intv', base, iv) * max(n, 1))
            return int(h01(self.seed, 'intv', base, iv) * 8) - 2
        k = self.key(base)
        if isinstance(base, tuple) and base and base[0] in ('eig', 'eigu'):
            return self.eig(base[0], k[1:], iv[0])
        if (k, iv) in self.real:
            return self.real[(k, iv)]
        if isinstance(base, tuple) and len(base) == 1 and base[0] in self.reals:
            return self.reals[base[0]](random.Random(repr((self.seed, base, iv))))
        if self.mode % 8 == 5 and h01(self.seed, 'const', k) < 0.6:
            return h01(self.seed, 'cst', k)
        if self.mode % 5 == 4:
            return abs(self.hv('idx', k, iv))
        return self.hv('idx', k, iv)

    def eig(self, how, k, i):
        """Eigenvalues: ascending ('eig') or in no particular order ('eigu')."""
        try:
            n = k[0][1][0]
        except Exception:
            raise EvalFail('eigenvalues')
        u = h01(self.seed, 'eigmode', k)
        vs = []
        for a in range(n):
            x = h01(self.seed, 'eig', k, a)
            if u < 0.4:
                v = 3 * x
            elif u < 0.8:
                v = -1 + 3 * x
            else:
                v = [-2e-6, -5e-7, 0.0, 1.0, -2e-5][int(x * 5)]
            vs.append(v)
        vs.sort(key=(lambda v: v) if how == 'eig' else (lambda v: h01(self.seed, 'eo', v)))
        if not 0 <= i < n:
            raise EvalFail('eig index')
        return vs[i]

    def fn(self, name, args):
        if name == 'nan':
            self.saw = True
            return self.eta
        if name in ('nanzero',):
            r = self.num(args[0])
            return 0.0 if r != r else r
        if name == 'inf':
            return math.inf
        if name == 'eps':
            return 2.0 ** -20
        if name == 'len':
            a = args[0].single_atom()
            if a and a[0] == 'opq' and isinstance(a[1], tuple) and a[1] and a[1][0] in ('su', 'suf'):
                return len(self.seq(a[1]))
            return int(h01(self.seed, 'len', self.key(args)) * 5)
        if name in ('maxover', 'minover', 'argmax', 'argmin'):
            b = args[0].single_atom()
            if b and b[0] == 'bnd':
                v = self.bound(b)
                if not v or any(isinstance(x, str) for x in v):
                    raise EvalFail('empty')
                if name == 'maxover':
                    return max(v)
                if name == 'minover':
                    return min(v)
                return v.index(max(v) if name == 'argmax' else min(v))
        if name in ('pearsonr', 'pearsonsel'):
            return self.pearson(*[x.single_atom() for x in args])
        if name in ('bnd',) or any(not isinstance(x, Poly) for x in args):
            return self.hv('fn', name, self.key(args))
        vs = [self.p(x) for x in args]
        try:
            if name == 'exp':
                return math.exp(vs[0])
            if name == 'log':
                return math.log(vs[0])
            if name == 'abs':
                return abs(vs[0])
            if name == 'tanh':
                return math.tanh(vs[0])
            if name == 'max':
                return max(vs)
            if name == 'min':
                return min(vs)
            if name == 'floor':
                return math.floor(vs[0] + 1e-9)
            if name == 'round':
                return float(round(vs[0]))
            if name == 'trunc':
                return math.trunc(vs[0])
            if name == 'mod':
                return vs[0] - vs[1] * math.floor(vs[0] / vs[1] + 1e-9)
            if name == 'rangelen':
                return len(range(*[round(v) for v in vs]))
            if name == 'sign':
                return (vs[0] > 0) - (vs[0] < 0)
            if name == 'real':
                return vs[0]
            if name == 'max0':
                return max(vs[0], 0)
        except (ValueError, OverflowError, ZeroDivisionError) as e:
            raise EvalFail(str(e))
        if name == 'divzero':
            raise EvalFail('division by zero')
        return self.hv('fn', name, tuple(rnd(v) for v in vs))

    def pearson(self, a, b, sel=None):
        if not a or not b or a[0] != 'bnd' or b[0] != 'bnd' or sel is not None and (not sel or sel[0] != 'bnd'):
            raise EvalFail('pearson')
        x, y = self.bound(a), self.bound(b)
        if sel is not None:
            s = self.bound(sel)
            if len(s) != len(x) or len(s) != len(y):
                raise EvalFail('pearson')
            x, y = [u for u, z in zip(x, s) if z == 1], [u for u, z in zip(y, s) if z == 1]
        if len(x) != len(y) or len(x) < 2 or any(isinstance(v, str) for v in x + y):
            raise EvalFail('pearson')
        mx, my = sum(x) / len(x), sum(y) / len(y)
        sx = sum((v - mx) ** 2 for v in x)
        sy = sum((v - my) ** 2 for v in y)
        if sx < 1e-9 or sy < 1e-9:
            raise EvalFail('constant input')
        return sum((u - mx) * (v - my) for u, v in zip(x, y)) / math.sqrt(sx * sy)

    # ---------------------------------------------------------- keys
    def key(self, x):
        if isinstance(x, Poly):
            return rnd(self.num(x))
        if isinstance(x, tuple):
            if x and x[0] == 'arr' and len(x) == 5 and isinstance(x[1], tuple):
                try:
                    return self.arrkey(x)
                except EvalFail:
                    raise
            if x and x[0] in ('le', 'lt', 'eq', 'and', 'or', 'not', 'any', 'p') and len(x) > 1 and \
                    not isinstance(x[1], str) or x and x[0] == 'p' and len(x) > 2:
                try:
                    return self.c(x)
                except EvalFail:
                    raise
            if x and x[0] in ('sum', 'prod', 'idx', 'fn', 'kern', 'sym', 'pw', 'ind') and len(x) > 2 and \
                    not isinstance(x[1], str):
                return rnd(self.atom(x))
            return tuple(self.key(y) for y in x)
        return x

    def arrkey(self, x):
        _, shape, body, dt, fmt = x
        dims = [self.iv(s) for s in shape]
        if any(d > 12 for d in dims):
            raise EvalFail('large')
        if isinstance(body, tuple) and body and body[0] == 'rav':
            return ('rav', dims, self.key(body[1:]))
        saved = dict(self.env)
        out = []
        try:
            for ix in itertools.product(*[range(d) for d in dims]):
                for k, v in enumerate(ix):
                    self.env[('L', 200 + k, 0)] = v
                    self.env[('i', k)] = v
                out.append(rnd(self.num(body)) if isinstance(body, Poly) else self.c(body))
        finally:
            self.env = saved
        return ('arr', tuple(dims), tuple(out))

    # ---------------------------------------------------------- conditions
    def c(self, c):
        if c is True or c is False:
            return c
        t = c[0]
        if t == 'le':
            return self.num(c[1]) <= 1e-12
        if t == 'lt':
            return self.num(c[1]) < -1e-12
        if t == 'eq':
            return abs(self.num(c[1])) <= 1e-9
        if t == 'not':
            return not self.c(c[1])
        if t == 'and':
            return all(self.c(x) for x in c[1])
        if t == 'or':
            return any(self.c(x) for x in c[1])
        if t == 'any':
            for _ in self.loop(c[1], c[2]):
                if self.c(c[3]):
                    return True
            return False
        if t == 'p':
            return self.pred(c)
        raise EvalFail('cond %s' % t)

    def pkey(self, c):
        return (c[1],) + tuple(self.key(x) for x in c[2:])

    def pred(self, c):
        k = self.pkey(c)
        if k in self.table:
            if c[1] == 'isnan' and self.table[k] and self.table.get(('notfinite',) + k[1:]) is False:
                return False                    # NaN implies not finite
            return self.table[k]
        return self.default(c[1], k)

    def default(self, name, k):
        if name in ('isnan', 'notfinite'):
            if k[1] == 'nan' or (name == 'notfinite' and k[1] in ('inf', '-inf')):
                return True
            if name == 'isnan':
                return self.table.get(('notfinite',) + k[1:], False) and False
            return self.table.get(('isnan',) + k[1:], False)
        if name == 'close' and all(isinstance(x, float) for x in k[1:3]):
            gap = abs(k[1] - k[2])
            if 1e-13 < gap < 1e-6 and min(abs(k[1]), abs(k[2])) < 1e-6 and not self.exact:
                raise EvalFail('borderline value')
            return gap <= 1e-8 + 1e-5 * min(abs(k[1]), abs(k[2]))
        if name == 'closetol' and all(isinstance(x, float) for x in k[1:5]):
            return abs(k[1] - k[2]) <= k[4] + k[3] * abs(k[2])
        if name == 'kfail' or name.startswith('eigfail'):
            return False
        return h01(self.seed, 'pred', k) < 0.5

    # ---------------------------------------------------------- forcing
    def force(self, c, val):
        """Try to make c evaluate to val by fixing free choices."""
        if c is True or c is False:
            return
        t = c[0]
        if t == 'not':
            return self.force(c[1], not val)
        if t == 'p' and c[1] in ('close', 'closetol') and isinstance(c[2], Poly):
            if self.closeness(c) == val:
                return
            try:
                self.force_close(c, val)
                if self.closeness(c) == val:
                    return
            except EvalFail:
                pass
            if not val and c[1] == 'close' and self.closeness(c):
                raise EvalFail('equal values are close')
        if t == 'p':
            k = self.pkey(c)
            if k in self.table and self.table[k] != val:
                raise EvalFail('conflicting predicate')
            self.table[k] = val
            return
        if t in ('and', 'or'):
            if (t == 'and') == val:
                for x in c[1]:
                    self.force(x, val)
            elif self.c(c) != val:
                xs = list(c[1])
                self.r.shuffle(xs)
                for x in xs:
                    try:
                        self.force(x, val)
                        return
                    except EvalFail:
                        continue
                raise EvalFail('cannot force')
            return
        if t == 'any':
            if val:
                if self.c(c):
                    return
                pts = []
                for _ in self.loop(c[1], c[2]):
                    pts.append({k: v for k, v in self.env.items() if k[0] == 'L' and k[1] == c[2]})
                if not pts:
                    raise EvalFail('empty')
                pt = self.r.choice(pts)
                saved = dict(self.env)
                self.env.update(pt)
                try:
                    self.force(c[3], True)
                finally:
                    self.env = saved
            else:
                for _ in self.loop(c[1], c[2]):
                    if self.c(c[3]):
                        self.force(c[3], False)
            return
        if t == 'eq' and val or t in ('le', 'lt'):
            if self.c(c) == val:
                return
            self.solve(c[1], t, val)
            return
        if self.c(c) != val:
            raise EvalFail('not satisfied')

    def closeness(self, c):
        """Value of a closeness condition, borderline values included (and
        remembered)."""
        self.exact = True
        try:
            k = self.pkey(c)
            r = self.pred(c)
            if k not in self.table and c[1] == 'close' and all(isinstance(x, float) for x in k[1:3]) and \
                    1e-13 < abs(k[1] - k[2]) < 1e-6:
                self.table[k] = r
            return r
        finally:
            self.exact = False

    def force_close(self, c, val):
        x, y = c[2], c[3]
        if val:
            if c[1] == 'closetol':
                tol = self.p(c[5]) + self.p(c[4]) * min(abs(self.p(y)), abs(self.p(x)))
            else:
                tol = 1e-8
            gap = self.r.choice([0.0, 0.9 * tol, -0.9 * tol])
        else:
            gap = self.r.choice([0.7, -1.3])
        g = P(F(gap))
        self.solve(x - y - g, 'eq', True)

    def solve(self, p, t, val):
        """Move one linear free integer/real symbol or array element."""
        d = self.p(p)
        cands = []
        for m, c in p.t:
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if a[0] == 'sym' and not isinstance(a[1], tuple):
                    cands.append((a, c))
                elif a[0] == 'kern':
                    cands.append((a, c))
                elif a[0] == 'idx' and not (a[1] and a[1][0] in ('su', 'sx', 'suf', 'sorted', 'ravel', 'eig', 'eigu')):
                    cands.append((a, c))
        self.r.shuffle(cands)
        if t == 'eq':
            delta = -d
        elif (t in ('le', 'lt')) == val:
            delta = -d - self.r.choice([0, 1]) if t == 'le' else -d - 1
        else:
            delta = -d + (1 if t == 'le' else self.r.choice([0, 1]))
        for a, c in cands:
            nv = self.atom(a) + delta / float(c)
            if is_int_atom(a):
                nv = math.floor(nv) if (c > 0) == (delta <= 0) else math.ceil(nv)
                nv = int(nv)
                if a[0] == 'sym' and isinstance(a[1], str) and len(a[1]) == 1 and a[1] in 'nmd' and not 0 <= nv <= 260:
                    continue
            if a[0] == 'sym':
                self.syms[a] = nv
            elif a[0] == 'kern':
                self.kv[self.kkey(a)] = nv
            else:
                ix = tuple(self.iv(x) for x in a[2])
                if a[1] and a[1][0] == 'int':
                    self.real[(a[1], ix)] = nv
                else:
                    self.real[(self.key(a[1]), ix)] = nv
            return
        raise EvalFail('cannot solve')

    def satisfy(self, conds):
        for rnd_ in range(4):
            bad = False
            for c in conds:
                if c is True:
                    continue
                if not self.c(c):
                    bad = True
                    self.force(c, True)
            if not bad:
                return True
        return all(self.c(c) for c in conds)


def rank(c):
    """Arithmetic facts on sizes first, predicates last."""
    s = repr(c)
    return (("'p'" in s), ("'any'" in s), ("'idx'" in s), len(s))


def fact_conds(facts):
    cs = []
    for l, v in facts.lit.items():
        cs.append(l if v else ('not', l))
    cs.sort(key=rank)
    return cs


SEED = 1


def valuations(facts, extra=(), tries=120, want=24, seed0=None, **kw):
    """Valuations satisfying the facts."""
    cs = fact_conds(facts)
    cs = [c for c in list(extra) if c is not True] + cs
    cs.sort(key=rank)
    got = 0
    for s in range(tries):
        v = Val((seed0 or SEED) * 1000 + s, mode=s, **kw)
        try:
            if not v.satisfy(cs):
                continue
        except EvalFail:
            continue
        except RecursionError:
            continue
        v.steps = 0
        yield v
        got += 1
        if got >= want:
            return
