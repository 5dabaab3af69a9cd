"""Rules for kernel sets, composites, buckets and ranking (C11, C12, C13, C16, C17)."""
import itertools
from .core import *
from .harness import *
from .registry import rule, call, meth, attr, new
from .rules_ops import el, S, finite, attached, kx, kset, centered, notclose0, pick
from .rules_km import ALL, isc, fl, att_c, intlist, at_int, exists, inside, exists2

n, m, d = N, M_, D
i, j = I(0), I(1)


def km(ck, k, on='X', norm=False):
    """Kernel matrix of kernel k attached to the named sample (None: not attached)."""
    env, ip = ck.env, ck.ip
    o = new(env, 'base.KernelMatrix', env.kernel(k), normalized=norm)
    if on:
        env.pos()
        meth(ip, o, 'attach_to', env.arr(on, ({'X': n, 'Y': m, 'Z': n}[on], d)))
    return o


def kern_on(k, s):
    return lambda a, b: kern(k, ('row', (s,), P(a)), ('row', (s,), P(b)))


def items(v):
    """Concrete items of an abstract sequence, or None."""
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, PList):
        return v.concrete()
    return None


class Same(Want):
    """Returns exactly the given object (kept in o.val by identity)."""

    def __init__(self, get, text):
        self.get, self.text = get, text

    def static(self, ck, o):
        if o.kind != 'ok':
            return False
        if isinstance(o.val, Unk):
            return None
        return self.get(o)

    def at(self, ck, o, v):
        r = self.static(ck, o)
        if r is None:
            raise Undecided('unknown value')
        return None if r else describe(o)

    def __str__(self):
        return self.text


# ---------------------------------------------------------------- C13
@rule('C13')
def c13(ck):
    """Composite kernels as functions of the members' matrices, for symbolic
    sample sizes and weights."""
    env, ip = ck.env, ck.ip
    ps = (2, 3) if ck.tier == 'quick' else (2, 3, 4)
    w = [sym('w%d' % a) for a in range(5)]
    wv = lambda p, ty='list': ([Sc(w[a], 'float') for a in range(p)])

    def weights(p):
        yield 'list', lambda: PList(wv(p)), w
        yield 'tuple', lambda: tuple(wv(p)), w
        yield 'array', lambda: env.arr('w', (P(p),)), [el('w', a) for a in range(p)]
        yield 'integer array', lambda: env.arr('w', (P(p),), I8), [el('w', a) for a in range(p)]
        yield 'list of integers', lambda: PList([isc(isym('v%d' % a)) for a in range(p)]), [isym('v%d' % a) for a in range(p)]

    def members(p, norm, kind):
        """(constructor of the set, matrix of member a)"""
        if kind == 'precomputed':
            gram = lambda a: (lambda x, y: el('g%d' % a, x) * el('g%d' % a, y))
            mk = lambda: (env.pos(), new(env, 'base.KernelSet', PList(
                [Arr((n, n), gram(a)(i, j), F8, owner='A%d' % a) for a in range(p)])))[1]
            return mk, [gram(a) for a in range(p)]
        if norm:
            f = lambda a: (lambda x, y: kx('k%d' % a)(x, y) / sqrt(kx('k%d' % a)(x, x) * kx('k%d' % a)(y, y)))
        else:
            f = lambda a: kx('k%d' % a)
        if kind == 'repeated':
            def mk():
                a = [km(ck, 'k%d' % b, norm=norm) for b in range(p)]
                return new(env, 'base.KernelSet', PList(a + a[:1]))
            return mk, [f(a) for a in range(p)] + [f(0)]
        if kind == 'bucket':
            def mk():
                b = new(env, 'sampling.KernelBucket', poly_degree_values=None, rbf_sigma_values=None, laplace_gamma_values=None,
                        sigmoid_gamma_values=None, sigmoid_offset_values=None, normalize_kernels=norm)
                return b
            return mk, None
        return (lambda: kset(ck, p, norm)), [f(a) for a in range(p)]

    def composite(cls, mk, wts=None, fitw=None, what='full', fits=1, **kw):
        s = mk()
        c = new(env, 'base.' + cls, s, *(() if wts is None else (wts(),)), **kw)
        for _ in range(fits):
            meth(ip, c, 'fit', *(() if fitw is None else (fitw(),)))
        return attr(ip, c, what)

    def zero_diag(Ks, p):
        return None

    def sums(ws, Ks):
        r = ZERO
        for a, K in enumerate(Ks):
            r = r + ws[a] * K(i, j)
        return r

    def prods(Ks):
        r = ONE
        for K in Ks:
            r = r * K(i, j)
        return r

    def group(p, norm, kind):
        mk, Ks = members(p, norm, kind)
        q = len(Ks)
        raw = [kx('k%d' % (a if a < p else 0)) for a in range(q)]
        tag = '%d members%s%s' % (q, ', normalized' if norm else '', ', ' + kind if kind else '')

        def spec(body):
            a = ArrIs((n, n), body, dt='float64')
            if not norm:
                return a

            def s(o):
                # a member that cannot be normalized raises its own error
                return Raises('KMNormError') if o.kind == 'raise' and o.val.cls.name.endswith('KMNormError') else a
            return s
        for what in ('full', 'composite_KM'):
            for fits in (1, 2):
                if fits == 2 and what == 'composite_KM':
                    continue
                t = '%s of %s, %s' % (what, tag, 'fitted twice' if fits == 2 else 'fitted')
                ck.case('SumKernel ' + t, lambda: composite('SumKernel', mk, what=what, fits=fits), spec(sums([ONE] * q, Ks)))
                ck.case('ProductKernel ' + t, lambda: composite('ProductKernel', mk, what=what, fits=fits), spec(prods(Ks)))
                ck.case('AverageKernel ' + t, lambda: composite('AverageKernel', mk, what=what, fits=fits), spec(sums([ONE] * q, Ks) / P(q)))
                for wn, wf, wt in weights(q):
                    ck.case('SumKernel(weights %s) %s' % (wn, t), lambda: composite('SumKernel', mk, fitw=wf, what=what, fits=fits), spec(sums(wt, Ks)))
                    ck.case('WeightedAverageKernel(%s) %s' % (wn, t), lambda: composite('WeightedAverageKernel', mk, wts=wf, what=what, fits=fits),
                            spec(sums(wt, Ks)))
        if kind == 'precomputed' and norm:
            return
        lc = env.get('operations.linear_combination')
        for wn, wf, wt in weights(q):
            ck.case('linear_combination(%s) of %s' % (wn, tag), lambda: call(ip, lc, mk(), wf()), spec(sums(wt, Ks)))
            tot = ZERO
            for x in wt[:q]:
                tot = tot + x
            if not norm:
                ck.case('linear_combination(%s, norm_weights) of %s' % (wn, tag), lambda: call(ip, lc, mk(), wf(), norm_weights=True),
                        [(notclose0(tot), Raises('Exception')), (True, ArrIs((n, n), sums(wt, Ks) / tot))])
        # wrong numbers of weights
        L = isym('L')
        for nm, f in (('SumKernel', lambda ww: composite('SumKernel', mk, fitw=ww)), ('WeightedAverageKernel', lambda ww: composite('WeightedAverageKernel', mk, wts=ww)),
                      ('linear_combination', lambda ww: call(ip, lc, mk(), ww())),
                      ('linear_combination(norm_weights)', lambda ww: call(ip, lc, mk(), ww(), norm_weights=True))):
            def run(f=f):
                env.pos(L)
                return f(lambda: env.arr('w', (L,)))
            if not norm:
                ck.case('%s of %s with L weights' % (nm, tag), run, [(mk_not(mk_eq(L - P(q))), Raises('Exception')), (True, Anything())],
                        vals={'ints': {'L': (1, q + 3)}})
            for k in (0, 1, q - 1, q + 1):
                ck.case('%s of %s with a list of %d weights' % (nm, tag, k),
                        lambda: f(lambda: PList([Sc(sym('w%d' % a), 'float') for a in range(k)])), Raises('Exception'))
        # weighted and unweighted fits of one object in turn
        if not norm:
            def turn(seq, what='full'):
                s = mk()
                c = new(env, 'base.SumKernel', s)
                for ww in seq:
                    meth(ip, c, 'fit', *(() if ww is None else (PList(wv(q)),)))
                return attr(ip, c, what)
            ck.case('SumKernel of %s: weighted fit, then plain fit' % tag, lambda: turn((1, None)), spec(sums([ONE] * q, Ks)))
            ck.case('SumKernel of %s: plain fit, then weighted fit' % tag, lambda: turn((None, 1)), spec(sums(w, Ks)))

            def failed(c0, first):
                s = mk()
                c = new(env, 'base.SumKernel', s)
                if first:
                    meth(ip, c, 'fit')
                try:
                    meth(ip, c, 'fit', PList([Sc(w[0], 'float')]))
                except PyRaise:
                    pass
                return attr(ip, c, 'full')
            ck.case('SumKernel of %s: full after a fit that was refused' % tag, lambda: failed(0, False), Raises('Exception'))
            ck.case('SumKernel of %s: full after a fit and one that was refused' % tag, lambda: failed(0, True),
                    lambda o: Anything() if o.kind == 'raise' else spec(sums([ONE] * q, Ks)))

            # kernel weights given at construction must not drift
            def wfit():
                s = mk()
                W = env.arr('w', (P(q),))
                c = new(env, 'base.WeightedAverageKernel', s, W)
                meth(ip, c, 'fit')
                call(ip, lc, s, W, norm_weights=True) if False else None
                meth(ip, c, 'fit')
                return attr(ip, c, 'full')
            ck.case('WeightedAverageKernel of %s: fitted again' % tag, wfit, spec(sums([el('w', a) for a in range(q)], Ks)))
        # the members stay as they are
        for cls in ('SumKernel', 'ProductKernel', 'AverageKernel', 'WeightedAverageKernel'):
            for a in range(q):
                def run():
                    s = mk()
                    c = new(env, 'base.' + cls, s, *((PList(wv(q)),) if cls == 'WeightedAverageKernel' else ()))
                    meth(ip, c, 'fit')
                    meth(ip, c, 'fit')
                    attr(ip, c, 'full')
                    return attr(ip, M.getitem(ip, s, a), 'full')
                ck.case('member %d of %s after %s.fit()' % (a, tag, cls), run, spec(Ks[a](i, j)) if kind != 'precomputed' else ArrIs((n, n), Ks[a](i, j)))

            def cnt():
                s = mk()
                c = new(env, 'base.' + cls, s, *((PList(wv(q)),) if cls == 'WeightedAverageKernel' else ()))
                meth(ip, c, 'fit')
                return attr(ip, s, 'size')
            if not norm:
                ck.case('size of the set after %s.fit()' % cls, cnt, ScIs(q))

        # the composite does not share storage with a member
        # unfitted
        for cls in ('SumKernel', 'ProductKernel', 'AverageKernel', 'WeightedAverageKernel'):
            for what in ('full', 'composite_KM'):
                def unf():
                    c = new(env, 'base.' + cls, mk(), *((PList(wv(q)),) if cls == 'WeightedAverageKernel' else ()))
                    return attr(ip, c, what)
                if not norm:
                    ck.case('unfitted %s(%s).%s' % (cls, tag, what), unf, Raises('Exception'))

        def lcafter():
            s = mk()
            W = env.arr('w', (P(q),))
            try:
                call(ip, lc, s, W, norm_weights=True)
            except PyRaise:
                pass
            return call(ip, lc, s, W)
        if not norm:
            ck.case('linear_combination of %s after a normalized one with the same weights' % tag, lcafter,
                    spec(sums([el('w', a) for a in range(q)], Ks)))

        # failing kernel during fit
        if not norm and kind == '':
            for cls in ('SumKernel', 'ProductKernel', 'AverageKernel', 'WeightedAverageKernel'):
                for at in range(0, 3 * p, 2):
                    def part():
                        s = new(env, 'base.KernelSet', PList([att_c(ck, False, False, 2, km=new(env, 'base.KernelMatrix', env.kernel('k%d' % a), normalized=False))
                                                              for a in range(p)]))
                        c = new(env, 'base.' + cls, s, *((PList(wv(q)),) if cls == 'WeightedAverageKernel' else ()))
                        ip.fail_at = at
                        try:
                            meth(ip, c, 'fit')
                        except PyRaise:
                            pass
                        finally:
                            ip.fail_at = None
                        return attr(ip, c, 'full')
                    ck.case('%s(%d members).full after a fit in which kernel call %d failed' % (cls, p, at), part, Raises('Exception'))
    jobs = []
    for p in ps:
        for norm in (False, True):
            for kind in ('', 'precomputed', 'repeated'):
                if kind == 'precomputed' and norm or kind and p > 2 and ck.tier == 'quick':
                    continue
                jobs.append(lambda p=p, norm=norm, kind=kind: group(p, norm, kind))
    with finite(ip):
        ck.fork(jobs)


# ---------------------------------------------------------------- C12
class Positions(Want):
    """The outcome is the tuple of the given positions (-1: not a member)."""

    def __init__(self, want):
        self.want = tuple(want)

    def static(self, ck, o):
        if o.kind != 'ok':
            return False
        return None if o.val is None else tuple(o.val) == self.want

    def at(self, ck, o, v):
        r = self.static(ck, o)
        if r is None:
            raise Undecided('unknown members')
        if r:
            return None
        return describe(o) if o.kind == 'raise' else 'members at positions %s' % (list(o.val),)

    def __str__(self):
        return 'the members at positions %s' % list(self.want)


def where_in(seq, ms):
    """Positions of the objects of seq in ms by identity; None when unknown."""
    seq = items(seq)
    if seq is None:
        return None
    out = []
    for x in seq:
        if isinstance(x, Unk):
            return None
        out.append(next((k for k, y in enumerate(ms) if y is x), -1))
    return tuple(out)


@rule('C12')
def c12(ck):
    env, ip = ck.env, ck.ip
    ps = (1, 2, 3) if ck.tier == 'quick' else (1, 2, 3, 4)
    a, b, c = isym('a'), isym('b'), isym('c')
    vals = {'ints': {'a': (-4, 6), 'b': (-4, 6), 'c': (-4, 6)}}
    IE, VE = Raises('IndexError'), Raises('ValueError')

    def build(p, how):
        ms = [km(ck, 'k%d' % x) for x in range(p)]
        if how == 'list':
            s = new(env, 'base.KernelSet', PList(ms))
        elif how == 'tuple':
            s = new(env, 'base.KernelSet', tuple(ms))
        elif how == 'append':
            s = new(env, 'base.KernelSet')
            for x in ms:
                meth(ip, s, 'append', x)
        elif how == 'extend':
            s = new(env, 'base.KernelSet', PList(ms[:1]))
            meth(ip, s, 'extend', new(env, 'base.KernelSet', PList(ms[1:]), num_samples=isc(n)))
        elif how == 'single':
            s = new(env, 'base.KernelSet', ms[0])
            for x in ms[1:]:
                meth(ip, s, 'append', x)
        elif how == 'bucket':
            s = new(env, 'sampling.KernelBucket', poly_degree_values=PList([2]), rbf_sigma_values=None, laplace_gamma_values=None,
                    sigmoid_gamma_values=None, sigmoid_offset_values=None)
            ms = items(env.ev('list(s)', s=s)) or []
            un = [new(env, 'base.KernelMatrix', env.kernel('k%d' % x), normalized=False) for x in range(p)]
            for x in un:
                meth(ip, s, 'append', x)
            ms = list(ms) + un
        else:
            raise AssertionError(how)
        return s, ms

    def per(cs, q, f):
        """Cases over the value of the symbolic positions cs: all in 0..q-1."""
        sp = []
        for vs in itertools.product(range(q), repeat=len(cs)):
            sp.append((mk_and(*[mk_eq(x - P(y)) for x, y in zip(cs, vs)]), f(vs)))
        return sp + [(True, IE)]

    def kfuncs(r, ms):
        r = items(r)
        if r is None:
            return None
        return tuple(next((k for k, y in enumerate(ms) if attr(ip, y, 'kernel') is x), -1) for x in r)

    def group(p, how):
        q = p + 2 if how == 'bucket' else p
        tag = 'set of %d built by %s' % (q, how)
        allp = tuple(range(q))

        def run(f):
            def g():
                s, ms = build(p, how)
                return f(s, ms)
            return g
        for lab, f, w in (
                ('iteration', lambda s, ms: where_in(env.ev('list(s)', s=s), ms), Positions(allp)),
                ('iteration in a comprehension', lambda s, ms: where_in(env.ev('[x for x in s]', s=s), ms), Positions(allp)),
                ('iteration twice', lambda s, ms: where_in(env.ev('[x for x in s] and [x for x in s]', s=s), ms), Positions(allp)),
                ('len', lambda s, ms: env.ev('len(s)', s=s), ScIs(q)), ('size', lambda s, ms: attr(ip, s, 'size'), ScIs(q)),
                ('elements by index', lambda s, ms: where_in(tuple(M.getitem(ip, s, x) for x in range(q)), ms), Positions(allp))):
            ck.case('%s: %s' % (tag, lab), run(f), w)
        one_ = lambda f: (lambda s, ms: where_in((f(s),), ms))
        ck.case('%s[a]' % tag, run(one_(lambda s: M.getitem(ip, s, isc(a)))), per([a], q, Positions), vals=vals)
        ck.case('%s[numpy integer a]' % tag, run(one_(lambda s: M.getitem(ip, s, Sc(a, 'npint')))), per([a], q, Positions), vals=vals)
        for bad in (fl(0.5), fl(0), '0', 'a', None, SliceV(None, None, None), SliceV(0, 1, None)):
            ck.case('%s[%s]' % (tag, bad), run(one_(lambda s: M.getitem(ip, s, bad))), VE)
        # take and get_kernel_funcs
        tk = lambda ix: (lambda s, ms: where_in(env.ev('list(t)', t=meth(ip, s, 'take', ix())), ms))
        gk = lambda ix: (lambda s, ms: kfuncs(meth(ip, s, 'get_kernel_funcs', ix()), ms))
        for opn, op in (('take', tk), ('get_kernel_funcs', gk)):
            if q <= 3:
                for lab, ix in (('[a]', lambda: PList([isc(a)])), ('a', lambda: isc(a)), ('(a,)', lambda: (isc(a),)),
                                ('array [a]', lambda: env.ev('np.array([a])', a=isc(a)))):
                    ck.case('%s.%s(%s)' % (tag, opn, lab), run(op(ix)), per([a], q, Positions), vals=vals)
                for lab, ix in (('[a, b]', lambda: PList([isc(a), isc(b)])), ('(a, b)', lambda: (isc(a), isc(b))),
                                ('array [a, b]', lambda: env.ev('np.array([a, b])', a=isc(a), b=isc(b)))):
                    ck.case('%s.%s(%s)' % (tag, opn, lab), run(op(ix)), per([a, b], q, Positions), vals=vals)
                if ck.tier != 'quick' or q == 2 and how == 'list':
                    ck.case('%s.%s([a, b, c])' % (tag, opn), run(op(lambda: PList([isc(a), isc(b), isc(c)]))), per([a, b, c], q, Positions), vals=vals)
            for ix in ([], [q - 1, 0], [0, q - 1, 0], [q - 1] * 3, list(range(q)), list(range(q - 1, -1, -1))):
                ck.case('%s.%s(%s)' % (tag, opn, ix), run(op(lambda: PList(ix))), Positions(ix))
                ck.case('%s.%s(tuple %s)' % (tag, opn, ix), run(op(lambda: tuple(ix))), Positions(ix))
            ck.case('%s.%s(range(size))' % (tag, opn), run(op(lambda: env.ev('range(q)', q=q))), Positions(allp))
            for ix in ([q], [-1], [0, q], [0, -1], [-1, 0], [q + 5, 0], [-q]):
                ck.case('%s.%s(%s)' % (tag, opn, ix), run(op(lambda: PList(ix))), IE)
            for ix in (q, -1):
                ck.case('%s.%s(%s)' % (tag, opn, ix), run(op(lambda: ix)), IE)

        # the source stays as it was, and repeated requests agree
        def twice(s, ms):
            meth(ip, s, 'take', PList([q - 1, 0]))
            meth(ip, s, 'get_kernel_funcs', PList([0]))
            return where_in(env.ev('list(s)', s=s), ms)
        ck.case('%s: members after take and get_kernel_funcs' % tag, run(twice), Positions(allp))

        def nested(s, ms):
            t = meth(ip, meth(ip, s, 'take', PList([q - 1, 0, q - 1])), 'take', PList([1, 2]))
            return where_in(env.ev('list(t)', t=t), ms)
        ck.case('%s: take of a taken set' % tag, run(nested), Positions([0, q - 1]))

        def grow(s, ms):
            t = meth(ip, s, 'take', PList([0]))
            meth(ip, t, 'append', ms[q - 1])
            return where_in(env.ev('list(s)', s=s), ms)
        ck.case('%s: members after growing a taken set' % tag, run(grow), Positions(allp))
        ck.case('%s: name of a taken set' % tag, run(lambda s, ms: attr(ip, meth(ip, s, 'take', PList([0]), name='abc'), 'name')),
                Pred(lambda o: o.kind == 'ok' and o.val == 'abc', "name 'abc'"))
        attrs(p, how, q, tag, run)
        if how != 'bucket':
            att(p, how, q, tag, run)

    def attrs(p, how, q, tag, run):
        # user-defined attributes
        vs = [sym('v%d' % x) for x in range(q)]
        lst = lambda: PList([Sc(x, 'float') for x in vs])
        read = lambda s, x, **kw: M.getitem(ip, meth(ip, s, 'get_attr', 'tag', **kw), x)

        def sets(val, get, pre=None):
            def f(s, ms):
                if pre:
                    meth(ip, s, 'set_attr', 'tag', pre())
                meth(ip, s, 'set_attr', 'tag', val())
                meth(ip, s, 'set_attr', 'other', Sc(sym('z'), 'float'))
                return get(s, ms)
            return run(f)
        for x in range(q):
            for lab, v in (('list', lst), ('tuple', lambda: tuple(Sc(y, 'float') for y in vs))):
                ck.case('%s: set_attr(%s), get_attr()[%d]' % (tag, lab, x), sets(v, lambda s, ms: read(s, x)), ScIs(vs[x]))
                ck.case('%s: set_attr(%s), member %d' % (tag, lab, x), sets(v, lambda s, ms: meth(ip, ms[x], 'get_attr', 'tag')), ScIs(vs[x]))
            ck.case('%s: set_attr(array), get_attr()[%d]' % (tag, x), sets(lambda: env.arr('V', (P(q),)), lambda s, ms: read(s, x)), ScIs(el('V', x)))
            ck.case('%s: set_attr(scalar), get_attr()[%d]' % (tag, x), sets(lambda: Sc(vs[0], 'float'), lambda s, ms: read(s, x)), ScIs(vs[0]))
            ck.case('%s: set_attr again, get_attr()[%d]' % (tag, x), sets(lst, lambda s, ms: read(s, x), lambda: fl(5)), ScIs(vs[x]))
            for sv in ('abc', 'a' * q):
                ck.case('%s: set_attr(%r), get_attr()[%d]' % (tag, sv, x), sets(lambda: sv, lambda s, ms: read(s, x)),
                        Pred(lambda o: o.kind == 'ok' and (None if isinstance(o.val, (Unk, StrV)) else o.val == sv), 'value %r' % sv))
            ck.case('%s: get_attr() of an unset attribute [%d]' % (tag, x), run(lambda s, ms: read(s, x, value_if_not_found=fl(7))), ScIs(7))
            ck.case('%s: default of get_attr() [%d]' % (tag, x), run(lambda s, ms: read(s, x)), Pred(lambda o: o.kind == 'ok' and o.val is None, 'None'))

            def single(s, ms):
                meth(ip, ms[0], 'set_attr', 'tag', Sc(vs[0], 'float'))
                return read(s, x, value_if_not_found=fl(7))
            ck.case('%s: get_attr()[%d] when only member 0 has it' % (tag, x), run(single), ScIs(vs[0]) if x == 0 else ScIs(7))
        ck.case('%s: len(get_attr())' % tag, run(lambda s, ms: env.ev('len(t)', t=meth(ip, s, 'get_attr', 'tag'))), ScIs(q))
        for k in (q + 1, q - 1, q + 3):
            if k == 1 or k < 1:
                continue
            ck.case('%s: set_attr(%d values)' % (tag, k), run(lambda s, ms: meth(ip, s, 'set_attr', 'tag', PList([fl(y) for y in range(k)]))), VE)

    def att(p, how, q, tag, run):
        # attaching
        Ks = lambda x, s: ArrIs((n if s != 'Y' else m, n if s != 'Y' else m), kern_on('k%d' % x, s)(i, j), dt='float64')

        def unatt(num=None):
            ms = [km(ck, 'k%d' % x, None) for x in range(p)]
            env.pos()
            return new(env, 'base.KernelSet', PList(ms)), ms
        for x in range(q):
            def fresh():
                s, ms = unatt()
                meth(ip, s, 'attach_to', env.arr('X', (n, d)))
                return attr(ip, ms[x], 'full')
            ck.case('%d unattached kernels: member %d after attach_to' % (q, x), fresh, Ks(x, 'X'))

            def again(s, ms):
                for y in ms:
                    attr(ip, y, 'full')
                meth(ip, s, 'attach_to', env.arr('Z', (n, d)))
                return attr(ip, ms[x], 'full')
            ck.case('%s: member %d after attaching to another sample' % (tag, x), run(again), Ks(x, 'Z'))

            def other(acc):
                def f(s, ms):
                    if acc:
                        attr(ip, ms[x], 'full')
                    try:
                        meth(ip, s, 'attach_to', env.arr('Y', (m, d)))
                    except PyRaise as e:
                        if e.exc.cls.name.split('.')[-1] != 'ValueError':
                            raise
                    return attr(ip, ms[x], 'full')
                return f
            for acc in (False, True):
                ck.case('%s: member %d after attach_to a sample of another size%s' % (tag, x, ', computed before' if acc else ''), run(other(acc)),
                        [(mk_eq(n - m), Ks(x, 'Y')), (True, Ks(x, 'X'))])

            def named(s, ms):
                meth(ip, s, 'attach_to', env.arr('Z', (n, d)), attr_name='tag', attr_value=Sc(sym('v'), 'float'))
                return meth(ip, ms[x], 'get_attr', 'tag')
            ck.case('%s: attribute given to attach_to, member %d' % (tag, x), run(named), ScIs(sym('v')))

            def plain(s, ms):
                meth(ip, s, 'set_attr', 'tag', fl(3))
                meth(ip, s, 'attach_to', env.arr('Z', (n, d)))
                return meth(ip, ms[x], 'get_attr', 'tag', fl(9))
            ck.case('%s: attribute after attach_to another sample, member %d' % (tag, x), run(plain), ScIs(9))
        ck.case('%s: attach_to a sample of another size' % tag, run(lambda s, ms: meth(ip, s, 'attach_to', env.arr('Y', (m, d)))),
                [(mk_eq(n - m), Returns()), (True, VE)])
        ck.case('%s: num_samples after refused attach_to' % tag, run(lambda s, ms: (_try(ip, lambda: meth(ip, s, 'attach_to', env.arr('Y', (m, d)))), attr(ip, s, 'num_samples'))[1]),
                ScIs(n))

        def fsize():
            s, ms = unatt()
            meth(ip, s, 'attach_to', env.arr('X', (n, d)))
            return attr(ip, s, 'num_samples')
        ck.case('%d unattached kernels: num_samples after attach_to' % q, fsize, ScIs(n))

        def twice():
            s, ms = unatt()
            meth(ip, s, 'attach_to', env.arr('X', (n, d)))
            meth(ip, s, 'attach_to', env.arr('Y', (m, d)))
        ck.case('%d unattached kernels: second attach_to' % q, twice, [(mk_eq(n - m), Returns()), (True, VE)])
        for bad in ('vector', '3-d', 'string'):
            def f(s, ms):
                return meth(ip, s, 'attach_to', {'vector': lambda: env.arr('X', (n,)), '3-d': lambda: env.arr('X', (n, d, P(2))), 'string': lambda: 'abc'}[bad]())
            ck.case('%s: attach_to(%s)' % (tag, bad), run(f), Raises('Exception'))
    jobs = []
    for p in ps:
        for how in ('list', 'append', 'extend', 'tuple', 'single', 'bucket'):
            if ck.tier == 'quick' and how in ('tuple', 'single', 'append', 'extend') and p != 2 or how == 'bucket' and p > 1:
                continue
            jobs.append(lambda p=p, how=how: group(p, how))
    with finite(ip):
        ck.fork(jobs[::-1])


def _try(ip, f):
    try:
        f()
    except PyRaise:
        pass


# ---------------------------------------------------------------- C11
class Rec:
    """What a history of operations left behind, as seen through the API."""

    def __init__(self):
        self.steps = []          # (op, raised class or None, sizes of members after, own size after, members unchanged)


class History(Want):
    """Checks a recorded history against the required behaviour."""

    def static(self, ck, o):
        r = self.run(o, lambda c: o.facts.decide(c))
        return True if r is None else None

    def at(self, ck, o, v):
        r = self.run(o, v.c)
        return r

    def run(self, o, dec):
        if o.kind == 'raise':
            return 'unexpected ' + describe(o)
        for (name, exp, exc, same, sizes, own, num, taken) in o.val:
            # sizes: terms of each member, own: size of the set
            if sizes is None:
                raise Undecided('unknown members')
            for who, s in enumerate(sizes):
                e = size_eq(s, own)
                r = e if isinstance(e, bool) else dec(e)
                if r is not True:
                    if r is None:
                        return 'cannot be shown: member %d and the set agree in size' % who
                    return 'after %s: member %d reports %s samples, the set %s' % (name, who, size_s(s), size_s(own))
            if num is not None and num != len(sizes):
                return 'after %s: %s members are listed but the size is %s' % (name, len(sizes), num)
            if exp is None:
                if exc is not None and same is not True:
                    return '%s raised %s but the members changed' % (name, exc)
                continue
            cond, wexc = exp
            c = cond if isinstance(cond, bool) else dec(cond)
            if c is None:
                return 'cannot be shown: compatibility for %s' % name
            if c:
                if exc is not None:
                    return '%s of a compatible member raised %s' % (name, exc)
                if same != 'grown':
                    return '%s did not add the member' % name
            else:
                if exc is None:
                    return '%s of an incompatible member was accepted' % name
                if wexc and wexc not in exc:
                    return '%s of an incompatible member raised %s instead of %s' % (name, exc[0], wexc)
                if same is not True:
                    return '%s was refused with %s but changed the members of the set' % (name, exc[0])
        return None

    def __str__(self):
        return 'members and set agree in the number of samples; incompatible additions are refused with KMSetAdditionError'


def size_of(x):
    if x is None:
        return None
    if isinstance(x, tuple):
        return tuple(size_of(y) for y in x)
    p = scalar_of(x)
    if p is None or p is False:
        return 'unknown'
    return p


def size_eq(a, b):
    if a == 'unknown' or b == 'unknown':
        raise Undecided('unknown size')
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
            return False
        return mk_and(*[size_eq(x, y) for x, y in zip(a, b)])
    return mk_eq(a - b)


def size_s(a):
    return 'no' if a is None else str(a) if isinstance(a, (str, tuple)) else show(a)


# the value returned by run when nothing is wrong
History.OK = None


@rule('C11')
def c11(ck):
    env, ip = ck.env, ck.ip

    def pre(size, g):
        return Arr((size, size), el(g, i) * el(g, j), F8, owner='A' + g)

    def member(what, k):
        if what in ('X', 'Y'):
            return km(ck, k, what)
        if what == 'u':
            return km(ck, k, None)
        if what == 'XY':
            o = km(ck, k, None)
            env.pos()
            meth(ip, o, 'attach_to', env.arr('X', (n, d)), sample_two=env.arr('Y', (m, d)))
            return o
        if what == 'aX':
            env.pos()
            return pre(n, 'g' + k)
        if what == 'aY':
            env.pos()
            return pre(m, 'g' + k)
        if what == 'pX':
            env.pos()
            return new(env, 'base.KernelMatrixPrecomputed', pre(n, 'g' + k))
        if what == 'pY':
            env.pos()
            return new(env, 'base.KernelMatrixPrecomputed', pre(m, 'g' + k))
        if what == 'bad':
            env.pos()
            return Arr((n, n + 1), sym('v'), F8)
        if what == 'vec':
            env.pos()
            return env.arr('A', (n,))
        if what == 'str':
            return 'abc'
        raise AssertionError(what)
    SZ = {'X': n, 'Y': m, 'u': None, 'XY': (n, m), 'aX': n, 'aY': m, 'pX': n, 'pY': m}

    def listing(s):
        return items(env.ev('list(s)', s=s))

    def observe(s):
        ms = listing(s)
        own = size_of(attr(ip, s, 'num_samples'))
        if ms is None:
            return None, own, None, None
        num = scalar_of(attr(ip, s, 'size'))
        num = None if num in (None, False) or num.const() is None else int(num.const())
        return tuple(size_of(attr(ip, x, 'num_samples')) for x in ms), own, num, ms

    def step(name, s, f, exp, log):
        before = listing(s)
        exc = None
        try:
            f()
        except PyRaise as e:
            exc = tuple(c.name.split('.')[-1] for c in e.exc.cls.mro)
        sizes, own, num, ms = observe(s)
        same = None
        if before is not None and ms is not None:
            same = len(before) == len(ms) and all(x is y for x, y in zip(before, ms))
            if not same and len(ms) > len(before) and all(x is y for x, y in zip(before, ms)):
                same = 'grown'
            elif not same:
                same = False
        log.append((name, exp, exc, same, sizes, own, num, None))
        return exc

    def do(op, s, log, ctr):
        kind, what = op
        ctr[0] += 1
        k = 'k%d' % ctr[0]
        sizes, own, num, ms = observe(s)
        if sizes is None:
            raise GiveUp('unknown members')
        unset = not sizes and own is None
        if kind == 'append':
            x = member(what, k)
            if what in SZ:
                exp = (True if unset else size_eq(SZ[what], own), 'KMSetAdditionError')
            else:
                exp = (False, None)
            step('append(%s)' % what, s, lambda: meth(ip, s, 'append', x), exp, log)
        elif kind == 'extend':
            if what == 'list':
                o = PList([member('X', k)])
                step('extend(list)', s, lambda: meth(ip, s, 'extend', o), (False, 'KMSetAdditionError'), log)
                return
            if what == 'self':
                step('extend(itself)', s, lambda: meth(ip, s, 'extend', s), (True, None) if sizes else None, log)
                return
            if what == 'none':
                step('extend(None)', s, lambda: meth(ip, s, 'extend', None), (False, 'KMSetAdditionError'), log)
                return
            if what == 'empty':
                o = new(env, 'base.KernelSet')
                step('extend(empty set)', s, lambda: meth(ip, s, 'extend', o), None, log)
                return
            if what == 'emptyY':
                env.pos()
                o = new(env, 'base.KernelSet', num_samples=isc(m))
                step('extend(empty set of size m)', s, lambda: meth(ip, s, 'extend', o), None, log)
                return
            o = new(env, 'base.KernelSet', PList([member(what, k), member(what, k + 'b')]))
            exp = None if unset else (size_eq(SZ[what], own), 'KMSetAdditionError')
            step('extend(set of two %s)' % what, s, lambda: meth(ip, s, 'extend', o), exp, log)
            sz, ow, nm_, _ = observe(o)
            log.append(('extend with this set', None, None, True, sz, ow, nm_, None))
        elif kind == 'take':
            ix = [x for x in what if x < len(sizes)]
            if not ix:
                return
            box = []
            step('take(%s)' % ix, s, lambda: box.append(meth(ip, s, 'take', PList(ix))), None, log)
            if box:
                sz, ow, nm_, _ = observe(box[0])
                log.append(('take(%s), in the new set' % ix, None, None, True, sz, ow, nm_, None))
                # and the new set keeps refusing
                y = member('Y', k)
                step('append(Y) to a taken set', box[0], lambda: meth(ip, box[0], 'append', y),
                     (size_eq(m, ow), 'KMSetAdditionError'), log)
        elif kind == 'attach':
            if any(sz_ is not None and isinstance(sz_, tuple) for sz_ in sizes):
                return
            step('attach_to(%s)' % what, s, lambda: meth(ip, s, 'attach_to', env.arr(what, ({'X': n, 'Y': m}[what], d))), None, log)

    STARTS = {
        'KernelSet()': lambda: new(env, 'base.KernelSet'),
        'KernelSet(num_samples=n)': lambda: (env.pos(), new(env, 'base.KernelSet', num_samples=isc(n)))[1],
        'KernelSet([X])': lambda: new(env, 'base.KernelSet', PList([km(ck, 'k0')])),
        'KernelSet(X)': lambda: new(env, 'base.KernelSet', km(ck, 'k0')),
        'KernelSet([X, X])': lambda: new(env, 'base.KernelSet', PList([km(ck, 'k0'), km(ck, 'k00')])),
        'KernelSet([u])': lambda: new(env, 'base.KernelSet', PList([km(ck, 'k0', None)])),
        'KernelSet([array])': lambda: (env.pos(), new(env, 'base.KernelSet', PList([pre(n, 'g')])))[1],
        'KernelSet([precomputed])': lambda: new(env, 'base.KernelSet', PList([member('pX', 'k0')])),
        'KernelSet([X by Y])': lambda: new(env, 'base.KernelSet', PList([member('XY', 'k0')])),
        'KernelBucket': lambda: new(env, 'sampling.KernelBucket', poly_degree_values=PList([2]), rbf_sigma_values=None, laplace_gamma_values=None,
                                    sigmoid_gamma_values=None, sigmoid_offset_values=None),
        'KernelBucket attached to X': lambda: bucket_x(),
        'KernelSet([u]) attached to X': lambda: set_x(),
    }

    def bucket_x():
        s = STARTS['KernelBucket']()
        env.pos()
        meth(ip, s, 'attach_to', env.arr('X', (n, d)))
        return s

    def set_x():
        s = STARTS['KernelSet([u])']()
        env.pos()
        meth(ip, s, 'attach_to', env.arr('X', (n, d)))
        return s
    OPS = [('append', x) for x in ('X', 'Y', 'u', 'XY', 'aX', 'aY', 'pY', 'bad', 'vec', 'str')] + \
          [('extend', x) for x in ('X', 'Y', 'u', 'XY', 'pY', 'list', 'self', 'none', 'empty', 'emptyY')] + \
          [('take', x) for x in ((0,), (1, 0))] + [('attach', x) for x in ('X', 'Y')]

    def history(start, ops):
        def run():
            log = []
            s = STARTS[start]()
            sizes, own, num, ms = observe(s)
            log.append(('construction', None, None, True, sizes, own, num, None))
            ctr = [0]
            for op in ops:
                do(op, s, log, ctr)
            return tuple(log)
        ck.case('%s, %s' % (start, ', '.join('%s %s' % o for o in ops)), run, History(), vals={'ints': {'n': (1, 3), 'm': (1, 3)}})

    def start_job(start, first):
        for op in first:
            history(start, [op])
            for op2 in OPS:
                if ck.tier == 'quick' and op2[0] == op[0] == 'take':
                    continue
                history(start, [op, op2])
                if ck.tier != 'quick':
                    for op3 in OPS[:8:2] + OPS[10:13] + OPS[-3:]:
                        history(start, [op, op2, op3])

    def construct():
        V = ('X', 'Y', 'u', 'XY', 'aX', 'aY', 'pX', 'pY')
        for num in (None, 'n', 'm'):
            for l in range(0, 4):
                for ws in itertools.product(V, repeat=l):
                    if ck.tier == 'quick' and l == 3 and (num or len(set(ws)) == 3 or 'XY' in ws and ws[0] != 'XY'):
                        continue

                    def run():
                        env.pos()
                        ms = [member(x, 'k%d' % y) for y, x in enumerate(ws)]
                        kw = {} if num is None else {'num_samples': isc(n if num == 'n' else m)}
                        s = new(env, 'base.KernelSet', PList(ms), **kw)
                        sizes, own, nm_, _ = observe(s)
                        return (('construction', None, None, True, sizes, own, nm_, None),)
                    size = {None: None, 'n': n, 'm': m}[num]
                    cond = True
                    for y, x in enumerate(ws):
                        if y == 0 and num is None:
                            size = SZ[x]
                            continue
                        cond = mk_and(cond, size_eq(SZ[x], size))
                    ck.case('KernelSet(%s%s)' % (list(ws), '' if num is None else ', num_samples=' + num), run,
                            [(cond, History()), (True, Raises('KMSetAdditionError'))], vals={'ints': {'n': (1, 3), 'm': (1, 3)}})
                    if not ws:
                        continue
                    k = len(ws)
                    ck.case('size of KernelSet(%s%s)' % (list(ws), '' if num is None else ', num_samples=' + num),
                            lambda: (env.pos(), attr(ip, new(env, 'base.KernelSet', PList([member(x, 'k%d' % y) for y, x in enumerate(ws)]),
                                                             **({} if num is None else {'num_samples': isc(n if num == 'n' else m)})), 'size'))[1],
                            [(cond, ScIs(k)), (True, Anything())], vals={'ints': {'n': (1, 3), 'm': (1, 3)}}) if ck.tier != 'quick' else None
        for lab, x in (('string', lambda: 'abc'), ('number', lambda: 3), ('list of strings', lambda: PList(['abc'])), ('list of vectors', lambda: PList([member('vec', 'k')])),
                       ('list of non-square matrices', lambda: PList([member('bad', 'k')]))):
            ck.case('KernelSet(%s)' % lab, lambda: new(env, 'base.KernelSet', x()), Raises('Exception'))
        # attachment decides the size of the set
        for cls in ('KernelBucket', 'KernelSet([u])'):
            def aft():
                s = STARTS[cls]()
                env.pos()
                meth(ip, s, 'attach_to', env.arr('X', (n, d)))
                return attr(ip, s, 'num_samples')
            ck.case('%s: num_samples after attach_to' % cls, aft, ScIs(n))
    jobs = [construct]
    for st in STARTS:
        for k in range(0, len(OPS), 8):
            jobs.append(lambda st=st, k=k: start_job(st, OPS[k:k + 8]))
    with finite(ip):
        ck.fork(jobs)


# ---------------------------------------------------------------- C17
import copy as _copy
from .rules_km import value_want, Warned


def result(f):
    """Outcome of f as a value: ('ok', v) or ('exc', class name)."""
    try:
        return ('ok', f())
    except PyRaise as e:
        return ('exc', e.exc.cls.name.split('.')[-1])


class Equal(Want):
    """The outcome is a pair (found, required) of results that must agree."""

    def __init__(self, kind_only=False):
        self.kind_only = kind_only

    def split(self, o):
        if o.kind != 'ok':
            return False, None
        got, ref = o.val
        if got[0] != ref[0]:
            return False, 'outcome %s instead of %s' % (got, ref)
        if got[0] == 'exc':
            return got[1] == ref[1], 'raises %s instead of %s' % (got[1], ref[1])
        if self.kind_only:
            return True, None
        o2 = _copy.copy(o)
        o2.val = got[1]
        w = value_want(ref[1])
        if w is None:
            raise Undecided('unknown value')
        return o2, w

    def static(self, ck, o):
        a, w = self.split(o)
        if isinstance(a, bool):
            return a
        return w.static(ck, a)

    def at(self, ck, o, v):
        a, w = self.split(o)
        if a is True:
            return None
        if a is False:
            return w or describe(o)
        return w.at(ck, a, v)

    def __str__(self):
        return 'the value required of the advertised kernel'


FAMS = (('poly_degree_values', 'PolyKernel', 'degree'), ('rbf_sigma_values', 'GaussianKernel', 'sigma'),
        ('laplace_gamma_values', 'LaplacianKernel', 'gamma'), ('sigmoid_gamma_values', 'SigmoidKernel', 'gamma'),
        ('sigmoid_offset_values', 'SigmoidKernel', 'offset'))


@rule('C17')
def c17(ck):
    env, ip = ck.env, ck.ip
    NKC = lambda c: env.get('numeric_kernels.' + c)

    def vec(nm):
        return env.arr(nm, (d,))

    def kvals(kf, two_d=False):
        env.pos()
        if two_d:
            a, b = env.arr('x', (P(2), P(2))), env.arr('y', (P(2), P(2)))
        else:
            a, b = vec('x'), vec('y')
        return result(lambda: call(ip, kf, a, b))

    def bucket(vals, **kw):
        args = {f: None for f, _, _ in FAMS}
        args.update({k: v() for k, v in vals.items()})
        args.update(kw)
        return new(env, 'sampling.KernelBucket', **args)

    def expected(vals):
        """[(class, parameter, value)] in bucket order."""
        r = [('LinearKernel', None, None)]
        for f, c, p in FAMS:
            if f in vals and vals[f] is not None:
                for v in (items(vals[f]()) or ()):
                    r.append((c, p, v))
        return r

    def same_kernels(lab, mk, exp, norm=True, skip=False, deep=True):
        ck.case('%s: number of kernels' % lab, lambda: env.ev('len(b)', b=mk()), ScIs(len(exp)))
        for k, (c, p, v) in enumerate(exp):
            kw = {} if p is None else {p: v}
            who = '%s: kernel %d = %s(%s)' % (lab, k, c, '' if p is None else '%s=%s' % (p, show(poly_of(v))))

            def cls():
                return attr(ip, M.getitem(ip, mk(), k), 'kernel')
            T = NKC(c)
            ck.case(who + ', class', cls, Pred(lambda o: o.kind == 'ok' and (None if isinstance(o.val, Unk) else isinstance(o.val, Obj) and o.val.cls.issub(T)), 'a ' + c))

            def value():
                b = mk()
                kf = attr(ip, M.getitem(ip, b, k), 'kernel')
                ref = ip.call(T, [], dict(kw))
                return (kvals(kf), kvals(ref))
            ck.case(who + ', value', value, Equal())
            if not deep:
                continue

            def chk():
                b = mk()
                kf = attr(ip, M.getitem(ip, b, k), 'kernel')
                ref = ip.call(T, [], dict(kw, **({'skip_input_checks': skip} if p is not None else {})))
                return (kvals(kf, True), kvals(ref, True))
            ck.case(who + ', input checks %s' % ('skipped' if skip and p else 'on'), chk, Equal(True))

            if c == 'HadamardKernel':
                continue

            def full():
                b = mk()
                x = env.arr('X', (P(2), P(2)))
                mm = M.getitem(ip, b, k)
                meth(ip, b, 'attach_to', x)
                ref = new(env, 'base.KernelMatrix', ip.call(T, [], dict(kw)), normalized=norm)
                meth(ip, ref, 'attach_to', x)
                return (result(lambda: attr(ip, mm, 'full')), result(lambda: attr(ip, ref, 'full')))
            ck.case(who + ', matrix (normalization %s)' % ('on' if norm else 'off'), full, Equal())

    sf = lambda nm: Sc(sym(nm), 'float')
    sets = {
        'all families, two values each': {f: (lambda p=p, f=f: PList([sf(f[:3] + p + '0'), sf(f[:3] + p + '1')])) for f, _, p in FAMS},
        'tuple of integers': {f: (lambda p=p, f=f: (2, 3)) for f, _, p in FAMS},
        'array of values': {'rbf_sigma_values': lambda: env.ev('np.array([0.5, 2.0, 1.0])'), 'sigmoid_offset_values': lambda: env.ev('np.array([1.0, -2.0])')},
        'repeated and unordered values': {'poly_degree_values': lambda: PList([3, 1, 3]), 'sigmoid_gamma_values': lambda: PList([fl(2), fl(0.5)])},
    }
    for f, c, p in FAMS:
        sets['only ' + f] = {f: (lambda p=p: PList([sf(p + '0'), sf(p + '1'), sf(p + '2')]))}
    sets['no values'] = {}

    def arr_items(v):
        if isinstance(v, Arr):
            cnt = int(v.shape[0].const())
            return [M.getitem(ip, v, k) for k in range(cnt)]
        return items(v)

    def poly_of(v):
        p = scalar_of(v)
        return p if isinstance(p, Poly) else sym(str(v))

    def group(lab, vals):
        exp = [('LinearKernel', None, None)]
        for f, c, p in FAMS:
            if vals.get(f) is not None:
                for v in arr_items(vals[f]()):
                    exp.append((c, p, v))
        same_kernels('KernelBucket(%s)' % lab, lambda: bucket(vals), exp)
        if lab in ('tuple of integers', 'no values') or ck.tier != 'quick':
            for norm in (True, False):
                for skip in (True, False):
                    same_kernels('KernelBucket(%s, normalize_kernels=%s, skip_input_checks=%s)' % (lab, norm, skip),
                                 lambda: bucket(vals, normalize_kernels=norm, skip_input_checks=skip), exp, norm, skip)

    cfg = ip.mods['kernelmethods.config'].s

    def conf(prefix):
        names = ('degree_values_poly_kernel', 'sigma_values_gaussian_kernel', 'gamma_values_laplacian_kernel',
                 'gamma_values_sigmoid_kernel', 'offset_values_sigmoid_kernel')
        exp = [('LinearKernel', None, None)]
        for nm, (f, c, p) in zip(names, FAMS):
            for v in items(env.get('config.%s_%s' % (prefix, nm))):
                exp.append((c, p, v))
        return exp

    mkb = env.get('sampling.make_kernel_bucket')

    def strategies():
        same_kernels('KernelBucket()', lambda: new(env, 'sampling.KernelBucket'), conf('default'), deep=False)
        same_kernels("make_kernel_bucket()", lambda: call(ip, mkb), conf('default'), deep=False)

    def strategies2(st, exp):
        same_kernels("make_kernel_bucket(%r)" % st, lambda: call(ip, mkb, st), exp, deep=ck.tier != 'quick' or st == 'linear_only')
        for norm in (True, False):
            for skip in (True, False):
                def some(what, k):
                    b = call(ip, mkb, st, normalize_kernels=norm, skip_input_checks=skip)
                    return b
                for k in sorted({0, len(exp) // 2, len(exp) - 1}):
                    c, p, v = exp[k]
                    T = NKC(c)
                    kw = {} if p is None else {p: v}

                    def full():
                        b = some('', k)
                        x = env.arr('X', (P(2), P(2)))
                        mm = M.getitem(ip, b, k)
                        meth(ip, mm, 'attach_to', x)
                        ref = new(env, 'base.KernelMatrix', ip.call(T, [], dict(kw)), normalized=norm)
                        meth(ip, ref, 'attach_to', x)
                        return (result(lambda: attr(ip, mm, 'full')), result(lambda: attr(ip, ref, 'full')))
                    ck.case('make_kernel_bucket(%r, normalize_kernels=%s, skip_input_checks=%s): matrix %d' % (st, norm, skip, k), full, Equal())

                    def chk():
                        kf = attr(ip, M.getitem(ip, some('', k), k), 'kernel')
                        ref = ip.call(T, [], dict(kw, **({'skip_input_checks': skip} if p is not None else {})))
                        return (kvals(kf, True), kvals(ref, True))
                    ck.case('make_kernel_bucket(%r, normalize_kernels=%s, skip_input_checks=%s): input checks of kernel %d' % (st, norm, skip, k), chk, Equal(True))
        ck.case('make_kernel_bucket(%r).num_samples' % st, lambda: attr(ip, call(ip, mkb, st), 'num_samples'),
                Pred(lambda o: o.kind == 'ok' and o.val is None, 'None'))
        for var in (st.upper(), st.capitalize()):
            ck.case('make_kernel_bucket(%r): number of kernels' % var, lambda: env.ev('len(b)', b=call(ip, mkb, var)), ScIs(len(exp)))

    def misc():
        for bad in ('unknown', 'exhaustive ', '', 'all', 'heavy'):
            ck.case('make_kernel_bucket(%r)' % bad, lambda: call(ip, mkb, bad), Raises('ValueError'))
        for s in items(env.get('config.kernel_bucket_strategies')):
            ck.case('advertised strategy %r' % s, lambda: call(ip, mkb, s), Returns())

        def given(kind):
            b = bucket({'poly_degree_values': lambda: PList([2])}) if kind == 'bucket' else kset(ck, 2)
            r = call(ip, mkb, b)
            return where_in((r,), [b])
        for kind in ('bucket', 'set'):
            ck.case('make_kernel_bucket(a %s)' % kind, lambda: given(kind), Positions([0]))
        # values that cannot be used
        apk = lambda b, c, p, v: meth(ip, b, 'add_parametrized_kernels', NKC(c) if isinstance(c, str) else c, p, v)
        for lab, c, p, v, good in (
                ('alpha 3, 0, 2', 'HadamardKernel', 'alpha', lambda: PList([3, 0, 2]), [3, 2]),
                ('alpha 0, 3', 'HadamardKernel', 'alpha', lambda: PList([0, 3]), [3]),
                ('alpha 3, 0', 'HadamardKernel', 'alpha', lambda: PList([3, 0]), [3]),
                ('alpha 0', 'HadamardKernel', 'alpha', lambda: PList([0]), []),
                ("sigma 2, 'abc', 3", 'GaussianKernel', 'sigma', lambda: PList([2, 'abc', 3]), [2, 3]),
                ("sigma None, 3", 'GaussianKernel', 'sigma', lambda: PList([None, 3]), [3]),
                ('unknown parameter', 'GaussianKernel', 'nope', lambda: PList([1, 2]), [])):
            def add():
                b = bucket({})
                apk(b, c, p, v())
                return b
            exp = [('LinearKernel', None, None)] + [(c, p, x) for x in good]
            same_kernels('bucket with %s(%s)' % (c, lab), add, exp)
            nbad = len(items(v())) - len(good)

            def warned(o):
                ws = [e for e in o.events if e.kind == 'warn']
                return o.kind == 'ok' and len(ws) >= nbad
            ck.case('bucket with %s(%s): warnings' % (c, lab), add, Pred(warned, 'a warning for each of the %d values skipped' % nbad))

            def after():
                b = add()
                apk(b, 'PolyKernel', 'degree', PList([2]))
                return b
            same_kernels('bucket with %s(%s), then degree 2' % (c, lab), after, exp + [('PolyKernel', 'degree', 2)], deep=False)
        for lab, v in (('None', lambda: None),):
            ck.case('add_parametrized_kernels(PolyKernel, degree, %s)' % lab, lambda: (lambda b: (apk(b, 'PolyKernel', 'degree', v()), env.ev('len(b)', b=b))[1])(bucket({})), ScIs(1))
        for lab, v in (('empty list', lambda: PList([])), ('number', lambda: 3), ('string', lambda: 'abc')):
            ck.case('add_parametrized_kernels(PolyKernel, degree, %s)' % lab, lambda: apk(bucket({}), 'PolyKernel', 'degree', v()), Raises('ValueError'))
        for lab, cc in (('a function', lambda: env.ev('lambda x, y: 1')), ('an instance', lambda: ip.call(NKC('PolyKernel'), [], {})),
                        ('another class', lambda: env.get('base.KernelMatrix'))):
            ck.case('add_parametrized_kernels(%s)' % lab, lambda: apk(bucket({}), cc(), 'degree', PList([1])), Raises('KernelMethodsException'))
        for flag in ('normalize_kernels', 'skip_input_checks'):
            for bad in ('yes', None, 1, 0):
                ck.case('KernelBucket(%s=%r)' % (flag, bad), lambda: bucket({}, **{flag: bad}), Raises('TypeError'))
        # good values cause no warnings
        ck.case('KernelBucket() issues no warning', lambda: new(env, 'sampling.KernelBucket'), Warned(False))
        for st in ('light', 'exhaustive', 'linear_only'):
            ck.case('make_kernel_bucket(%r) issues no warning' % st, lambda: call(ip, mkb, st), Warned(False))

        # two buckets do not share members or settings
        def indep():
            b1 = bucket({'poly_degree_values': lambda: PList([2])})
            b2 = bucket({'poly_degree_values': lambda: PList([2])})
            apk(b1, 'PolyKernel', 'degree', PList([5]))
            return env.ev('len(b)', b=b2)
        ck.case('buckets are independent', indep, ScIs(2))

        def named():
            return attr(ip, bucket({}, name='abc'), 'name')
        ck.case('KernelBucket(name)', named, Pred(lambda o: o.kind == 'ok' and o.val == 'abc', "name 'abc'"))
    jobs = [strategies, misc]
    jobs += [lambda s=s, e=e: strategies2(s, e) for s, e in (('exhaustive', conf('default')), ('light', conf('light')), ('linear_only', [('LinearKernel', None, None)]))]
    jobs += [lambda l=l, v=v: group(l, v) for l, v in sets.items()]
    with finite(ip):
        ck.fork(jobs)


# ---------------------------------------------------------------- C16
def with_val(o, v):
    o2 = _copy.copy(o)
    o2.kind, o2.val = 'ok', v
    return o2


class Scores(Want):
    """Cross-validation: one grid search per kernel on its own full matrix with
    the given targets, and scores that are their best scores rescaled to 0..100
    (pos=False), or the position of the best kernel (pos=True)."""

    def __init__(self, mats, y, cls, folds=None, pos=False):
        self.mats, self.y, self.cls, self.folds, self.pos = mats, y, cls, folds, pos

    def fits(self, o):
        return [e.data for e in o.events if e.kind == 'ext-fit' and e.data[0].cls.name.endswith('GridSearchCV')]

    def fit_ok(self, e):
        """True / None / text of what is wrong with the set-up of a search."""
        obj, rec, X, y, sw, params, extra = e
        est, cv = params.get('estimator'), params.get('cv')
        if not isinstance(est, Obj):
            return None
        if not any(c.name.split('.')[-1] == self.cls for c in est.cls.mro):
            return 'cross-validates a %s instead of a %s' % (est.cls.name, self.cls)
        if est.s.get('kernel') != 'precomputed':
            return 'cross-validates an estimator with kernel %r on a kernel matrix' % (est.s.get('kernel'),)
        if self.folds is not None:
            c = scalar_of(cv)
            if not isinstance(c, Poly):
                return None if cv is not None else 'cross-validation with the default number of folds instead of %s' % show(self.folds)
            if c != self.folds:
                return 'cross-validation with %s folds instead of %s' % (show(c), show(self.folds))
        if sw is not None:
            return None
        return True

    def match(self, ck, o, v=None):
        """Grid-search record for each kernel, or text."""
        out = []
        fits = self.fits(o)
        for k, w in enumerate(self.mats):
            hit = None
            for e in fits:
                if v is None:
                    ok = w.static(ck, with_val(o, e[2])) is True and self.y.static(ck, with_val(o, e[3])) is True
                else:
                    ok = w.at(ck, with_val(o, e[2]), v) is None and self.y.at(ck, with_val(o, e[3]), v) is None
                if ok:
                    hit = e
                    break
            if hit is None:
                if v is None:
                    return None
                return 'the full matrix of kernel %d is never cross-validated against the targets' % k
            out.append(hit)
        return out

    def score(self, e):
        return A(('opq', ('best_score', e[1])))

    def scaled(self, s):
        lo, hi = fn('min', *s), fn('max', *s)
        return [P(100) * (x - lo) / (hi - lo) for x in s]

    def static(self, ck, o):
        if o.kind != 'ok':
            return False
        es = self.match(ck, o)
        if es is None:
            return None
        for e in es:
            r = self.fit_ok(e)
            if r is not True:
                return None if r is None else False
        s = [self.score(e) for e in es]
        lo, hi = fn('min', *s), fn('max', *s)
        r = o.facts.decide(notclose0(hi - lo))
        if r is None:
            return None
        if self.pos:
            if o.val is None:
                return None
            if r:
                return True if o.val[0] >= 0 else False
            return argmax_proof(o, self.scaled(s)) or argmax_proof(o, s)
        x = o.val
        if not isinstance(x, Arr):
            return None
        w = pick(self.scaled(s), i) if not r else ZERO
        return ArrIs((P(len(s)),), w).static(ck, o)

    def at(self, ck, o, v):
        if o.kind != 'ok':
            return describe(o)
        if isinstance(o.val, Unk) or o.val is None:
            raise Undecided('unknown value')
        if not self.fits(o):
            raise Undecided('no grid search found')
        es = self.match(ck, o, v)
        if isinstance(es, str):
            return es
        for e in es:
            r = self.fit_ok(e)
            if r is None:
                raise Undecided('unknown estimator or folds')
            if r is not True:
                return r
        s = [v.num(self.score(e)) for e in es]
        flat = v.c(notclose0(fn('max', *[self.score(e) for e in es]) - fn('min', *[self.score(e) for e in es])))
        if self.pos:
            if o.val[0] < 0:
                return 'an object that is not in the bucket'
            if not flat and s[o.val[0]] < max(s) - 1e-9:
                return 'kernel %d with score %s although the scores are %s' % (o.val[0], num(s[o.val[0]]), [num(x) for x in s])
            return None
        x = o.val
        if not isinstance(x, Arr) or x.ndim != 1:
            return describe(o)
        b = body_of(x)
        if isinstance(b, Unk):
            raise Undecided('unknown value')
        if v.iv(x.shape[0]) != len(s):
            return '%d scores for %d kernels' % (v.iv(x.shape[0]), len(s))
        al = alien(b, pick([self.score(e) for e in es], i))
        g = [v.num(subst(b, {('i', 0): P(k)})) for k in range(len(s))]
        bad = None
        if any(q < -1e-7 or q > 100 + 1e-7 or q != q for q in g):
            bad = 'scores %s outside 0..100' % [num(q) for q in g]
        elif not flat:
            if abs(min(g)) > 1e-7 or abs(max(g) - 100) > 1e-7:
                bad = 'scores %s do not span 0..100' % [num(q) for q in g]
            for a in range(len(s)):
                for c in range(len(s)):
                    if s[a] < s[c] and not g[a] < g[c]:
                        bad = 'scores %s of kernels with cross-validation scores %s' % ([num(q) for q in g], [num(q) for q in s])
        if bad and al:
            raise Undecided('uninterpreted functions in the result')
        return bad

    def __str__(self):
        return ('the kernel with the highest cross-validation score' if self.pos else
                'cross-validation score of each kernel rescaled to 0..100 in bucket order')


def argmax_proof(o, scores):
    """Does the path establish that the result is argmax of these scores?"""
    if o.val[0] >= 0 and all(same_poly(x, scores[o.val[0]], o.facts) for x in scores):
        return True
    for l, val in o.facts.lit.items():
        if val is not True or l[0] != 'eq':
            continue
        for m_, c in l[1].t:
            if len(m_) != 1 or m_[0][0][:2] != ('fn', 'argmax'):
                continue
            at = m_[0][0]
            k = A(at) - l[1] / P(c)
            if k.const() is None or int(k.const()) != o.val[0]:
                continue
            b = at[2][0].single_atom()
            if not b or b[0] != 'bnd' or len(b[1]) != 1 or b[1][0].const() != len(scores):
                continue
            tab = [subst(b[3], {('L', b[2], 0): P(q)}) for q in range(len(scores))]
            if all(same_poly(x, y, o.facts) for x, y in zip(tab, scores)):
                return True
    return None


class BestOf(Want):
    """Position of a largest of the given scores."""

    def __init__(self, scores):
        self.scores = scores

    def static(self, ck, o):
        if o.kind != 'ok':
            return False
        return None if o.val is None else argmax_proof(o, self.scores)

    def at(self, ck, o, v):
        if o.kind != 'ok':
            return describe(o)
        if o.val is None:
            raise Undecided('unknown member')
        if o.val[0] < 0:
            return 'an object that is not in the bucket'
        s = [v.num(x) for x in self.scores]
        if any(x != x for x in s):
            raise Undecided('undefined score')
        if s[o.val[0]] < max(s) - 1e-7:
            return 'kernel %d with score %s although the scores are %s' % (o.val[0], num(s[o.val[0]]), [num(x) for x in s])

    def __str__(self):
        return 'the kernel with the highest score'


@rule('C16')
def c16(ck):
    env, ip = ck.env, ck.ip
    rk_, fo, cvr, alr, ge = [env.get('ranking.' + x) for x in
                             ('rank_kernels', 'find_optimal_kernel', 'CV_ranking', 'alignment_ranking', 'get_estimator')]
    methods = items(env.get('config.VALID_RANKING_METHODS'))
    CV = lambda me: me.lower() in ('cv_risk', 'cv')
    rows = lambda s, a: ('row', (s,), P(a))
    lin = lambda s: (lambda a, b: S([d], lambda q: el(s, a, q) * el(s, b, q)))

    def mat(k, s='X'):
        return lin(s) if k is None else (lambda a, b: kern(k, rows(s, a), rows(s, b)))

    def normd(K):
        return lambda a, b: K(a, b) / sqrt(K(a, a) * K(b, b))

    def align(K, y, cent=False):
        """(alignment, either norm is zero)"""
        T_ = lambda a, b: y(a) * y(b)
        if cent:
            c1, c2 = K, T_
        else:
            c1 = lambda a, b: centered(K, n, a, b)
            c2 = lambda a, b: centered(T_, n, a, b)
        n1 = sqrt(S([n, n], lambda p, q: c1(p, q) * c1(p, q)))
        n2 = sqrt(S([n, n], lambda p, q: c2(p, q) * c2(p, q)))
        return S([n, n], lambda p, q: c1(p, q) * c2(p, q)) / (n1 * n2), mk_or(notclose0(n1), notclose0(n2))

    def bucket(kinds, norm=False):
        """Bucket of a linear kernel and the named ones."""
        b = new(env, 'sampling.KernelBucket', poly_degree_values=None, rbf_sigma_values=None, laplace_gamma_values=None,
                sigmoid_gamma_values=None, sigmoid_offset_values=None, normalize_kernels=norm)
        for k in kinds:
            meth(ip, b, 'append', km(ck, k, None, norm=norm))
        env.pos()
        return b
    yv = lambda dt=F8: env.arr('y', (n,), dt)
    Y1 = lambda dt=None: ArrIs((n,), el('y', i))
    ye = lambda a: el('y', a)

    def cv_cases(p, norm):
        tag = '%d kernels%s' % (p, ', normalized' if norm else '')

        def full(k, s='X'):
            K = mat(k, s)
            return ArrIs((n, n), (normd(K) if norm else K)(i, j))

        def sp(mats, cls, folds=None, pos=False):
            w = Scores(mats, Y1(), cls, folds, pos)
            if not norm:
                return w
            return lambda o: Raises('KMNormError') if o.kind == 'raise' and o.val.cls.name.endswith('KMNormError') else w
        mats = [full('k%d' % a) for a in range(p)]
        f = isym('folds')
        names = [('SVM', 'SVC'), ('svc', 'SVC'), ('SVR', 'SVR'), ('svr', 'SVR')]
        for me in methods:
            if not CV(me):
                continue
            for M_2 in (me, me.upper()):
                ck.case('rank_kernels(%s, method=%r)' % (tag, M_2), lambda: call(ip, rk_, kset(ck, p, norm), yv(), method=M_2), sp(mats, 'SVC'))
            ck.case('rank_kernels(%s, method=%r, integer targets)' % (tag, me), lambda: call(ip, rk_, kset(ck, p, norm), yv(I8), method=me), sp(mats, 'SVC'))
            ck.case('rank_kernels(%s, method=%r, num_folds)' % (tag, me),
                    lambda: (env.pos(f), call(ip, rk_, kset(ck, p, norm), yv(), method=me, num_folds=isc(f)))[1], sp(mats, 'SVC', f))
            for nm, cls in names:
                ck.case('rank_kernels(%s, method=%r, estimator %s, num_folds)' % (tag, me, nm),
                        lambda: (env.pos(f), call(ip, rk_, kset(ck, p, norm), yv(), method=me, num_folds=isc(f), estimator_name=nm))[1], sp(mats, cls, f))
        ck.case('CV_ranking(%s)' % tag, lambda: call(ip, cvr, kset(ck, p, norm), yv()), sp(mats, 'SVC'))
        for fo_ in (2, 5, 10):
            ck.case('CV_ranking(%s, num_folds=%d)' % (tag, fo_), lambda: call(ip, cvr, kset(ck, p, norm), yv(), num_folds=fo_), sp(mats, 'SVC', P(fo_)))
        for nm, cls in names:
            ck.case('CV_ranking(%s, estimator %s)' % (tag, nm), lambda: call(ip, cvr, kset(ck, p, norm), yv(), 4, nm), sp(mats, cls, P(4)))

        # choice of the best
        kinds = ['k%d' % a for a in range(1, p)]

        def run(before=None, **kw):
            b = bucket(kinds, norm)
            if before:
                meth(ip, b, 'attach_to', env.arr('Z', (n, d)))
                if before == 'used':
                    for x in range(p):
                        attr(ip, M.getitem(ip, b, x), 'full')
            ms = items(env.ev('list(b)', b=b))
            return where_in((call(ip, fo, b, env.arr('X', (n, d)), yv(), **kw),), ms)
        bm = [full(None)] + [full(k) for k in kinds]
        for lab, before in (('', None), ('bucket attached before, ', 'yes'), ('bucket used before, ', 'used')):
            if norm and before == 'used':
                continue
            ck.case('find_optimal_kernel(%s%s)' % (lab, tag), lambda: run(before), sp(bm, 'SVC', None, True))
            ck.case('find_optimal_kernel(%s%s, SVR, num_folds)' % (lab, tag),
                    lambda: (env.pos(f), run(before, method='cv_risk', estimator_name='SVR', num_folds=isc(f)))[1], sp(bm, 'SVR', f, True))

            # the matrix handed out is that of the given sample
            def attached_to():
                b = bucket(kinds, norm)
                if before:
                    meth(ip, b, 'attach_to', env.arr('Z', (n, d)))
                    if before == 'used':
                        attr(ip, M.getitem(ip, b, 0), 'full')
                ms = items(env.ev('list(b)', b=b))
                r = call(ip, fo, b, env.arr('X', (n, d)), yv())
                k = where_in((r,), ms)
                return (k, attr(ip, r, 'full'))

            class Handed(Want):
                def want(self, o):
                    if o.kind != 'ok':
                        return None
                    if o.val[0] is None:
                        raise Undecided('unknown member')
                    return bm[o.val[0][0]] if o.val[0][0] >= 0 else None

                def static(self, ck_, o):
                    w = self.want(o)
                    return False if w is None else w.static(ck_, with_val(o, o.val[1]))

                def at(self, ck_, o, v):
                    w = self.want(o)
                    return describe(o) if w is None else w.at(ck_, with_val(o, o.val[1]), v)

                def __str__(self):
                    return 'a kernel matrix of the given sample'
            hs = Handed() if not norm else (lambda o: Raises('KMNormError') if o.kind == 'raise' and o.val.cls.name.endswith('KMNormError') else Handed())
            ck.case('find_optimal_kernel(%s%s): full matrix of the result' % (lab, tag), attached_to, hs)

    def al_cases(p, norm):
        tag = '%d kernels%s' % (p, ', normalized' if norm else '')
        mats = [mat('k%d' % a) for a in range(p)]
        if norm:
            mats = [normd(K) for K in mats]
        r = sym('subst')

        def table(cent=False, sub=None):
            """Required scores; entries of kernels of zero norm are free (None) unless a substitute is given."""
            al = [align(K, ye, cent) for K in mats]
            w = ZERO
            free_ = False
            for a, (v, z) in enumerate(al):
                at = ind(mk_eq(i - P(a)))
                if sub is None:
                    w = w + at * v
                    free_ = mk_or(free_, mk_and(mk_eq(i - P(a)), z))
                else:
                    w = w + at * (ind(z) * sub + ind(mk_not(z)) * v)
            return ArrIs((P(p),), w, region=None if sub is not None else mk_not(free_))
        ynorm = lambda w: w if not norm else (lambda o: Raises('KMNormError') if o.kind == 'raise' and o.val.cls.name.endswith('KMNormError') else w)
        for me in methods:
            if CV(me):
                continue
            for M_2 in (me, me.upper(), me.capitalize()):
                ck.case('rank_kernels(%s, method=%r)' % (tag, M_2), lambda: call(ip, rk_, kset(ck, p, norm), yv(), method=M_2), ynorm(table()), limit=600)
            ck.case('rank_kernels(%s, method=%r, integer targets)' % (tag, me), lambda: call(ip, rk_, kset(ck, p, norm), yv(I8), method=me), ynorm(table()), limit=600)
            if norm:
                continue
            ck.case('rank_kernels(%s, method=%r, substitute value)' % (tag, me),
                    lambda: call(ip, rk_, kset(ck, p, norm), yv(), method=me, value_if_zero_division=Sc(r, 'float')), table(sub=r), limit=600)
            ck.case('rank_kernels(%s, method=%r, centered_already)' % (tag, me),
                    lambda: call(ip, rk_, kset(ck, p, norm), yv(), method=me, centered_already=True), table(True), limit=600)
            ck.case('rank_kernels(%s, method=%r, centered_already, substitute)' % (tag, me),
                    lambda: call(ip, rk_, kset(ck, p, norm), yv(), method=me, centered_already=True, value_if_zero_division=Sc(r, 'float')),
                    table(True, r), limit=600)
        ck.case('rank_kernels(%s)' % tag, lambda: call(ip, rk_, kset(ck, p, norm), yv()), Returns() if not norm else Anything())
        ck.case('alignment_ranking(%s)' % tag, lambda: call(ip, alr, kset(ck, p, norm), yv()), ynorm(table()), limit=600)
        if norm:
            return

    def al_best(p, part):
        tag = '%d kernels' % p
        r = sym('subst')
        kinds = ['k%d' % a for a in range(1, p)]

        def run(before=None, **kw):
            b = bucket(kinds)
            if before:
                meth(ip, b, 'attach_to', env.arr('Z', (n, d)))
                attr(ip, M.getitem(ip, b, 0), 'full')
            ms = items(env.ev('list(b)', b=b))
            return where_in((call(ip, fo, b, env.arr('X', (n, d)), yv(), **kw),), ms)

        def best(sub=None, cent=False):
            out, anyz = [], False
            for k in [None] + kinds:
                v, z = align(mat(k), ye, cent)
                anyz = mk_or(anyz, z)
                out.append(ind(z) * (ZERO if sub is None else sub) + ind(mk_not(z)) * v)
            return [(mk_not(anyz), BestOf(out)), (True, BestOf(out) if sub is not None else Returns())]
        for me in methods:
            if CV(me):
                continue
            if part == 0:
                ck.case('find_optimal_kernel(%s, method=%r)' % (tag, me), lambda: run(None, method=me), best(), limit=1500)
            if part == 1:
                ck.case('find_optimal_kernel(bucket used before, %s, method=%r)' % (tag, me), lambda: run('yes', method=me), best(), limit=1500)
            if part == 2:
                ck.case('find_optimal_kernel(%s, method=%r, substitute)' % (tag, me), lambda: run(method=me, value_if_zero_division=Sc(r, 'float')), best(r), limit=1500)
            if part == 3:
                ck.case('find_optimal_kernel(%s, method=%r)' % (tag, me.upper()), lambda: run(method=me.upper()), best(), limit=1500)

    def misc():
        for nm, cls in (('svm', 'SVC'), ('SVM', 'SVC'), ('svc', 'SVC'), ('SVC', 'SVC'), ('svr', 'SVR'), ('SVR', 'SVR'), (None, 'SVC')):
            def est(o):
                if o.kind != 'ok':
                    return False
                t = items(o.val)
                if t is None:
                    return None if isinstance(o.val, Unk) else False
                e = t[0]
                if isinstance(e, Unk):
                    return None
                return isinstance(e, Obj) and any(c.name.split('.')[-1] == cls for c in e.cls.mro) and e.s.get('kernel') == 'precomputed'
            ck.case('get_estimator(%s)' % ('' if nm is None else repr(nm)), lambda: call(ip, ge, *(() if nm is None else (nm,))),
                    Pred(est, 'an %s with precomputed kernel and its parameter grid' % cls))

            def grid(o):
                # the parameters searched are parameters of the estimator
                if o.kind != 'ok':
                    return False
                t = items(o.val)
                if t is None or len(t) != 2 or not isinstance(t[0], Obj):
                    return None
                g = t[1].concrete() if isinstance(t[1], PDict) else None
                if g is None:
                    return None
                from .models import EXT_INIT
                names = {k for k, _ in EXT_INIT['sklearn.svm.' + cls]}
                return all(k in names and k != 'kernel' for k, _ in g)
            ck.case('get_estimator(%s): grid' % ('' if nm is None else repr(nm)), lambda: call(ip, ge, *(() if nm is None else (nm,))),
                    Pred(grid, 'a grid over parameters of the estimator'))
        for nm in ('', 'tree', 'svmx', 'linear', 'knn', 'ridge', 'nusvc', 's'):
            ck.case('get_estimator(%r)' % nm, lambda: call(ip, ge, nm), Raises('NotImplementedError'))
            for me in methods:
                if CV(me):
                    ck.case('rank_kernels(method=%r, estimator %r)' % (me, nm), lambda: call(ip, rk_, kset(ck, 2), yv(), method=me, estimator_name=nm), Raises('NotImplementedError'))
                    ck.case('find_optimal_kernel(method=%r, estimator %r)' % (me, nm),
                            lambda: call(ip, fo, bucket(['k1']), env.arr('X', (n, d)), yv(), method=me, estimator_name=nm), Raises('NotImplementedError'))
            ck.case('CV_ranking(estimator %r)' % nm, lambda: call(ip, cvr, kset(ck, 2), yv(), estimator_name=nm), Raises('NotImplementedError'))
        for me in ('', 'unknown', 'cv_risk ', 'align', 'corr', 'pearson', 'cvrisk'):
            if me in methods:
                continue
            ck.case('rank_kernels(method=%r)' % me, lambda: call(ip, rk_, kset(ck, 2), yv(), method=me), Raises('NotImplementedError'))
            ck.case('find_optimal_kernel(method=%r)' % me, lambda: call(ip, fo, bucket(['k1']), env.arr('X', (n, d)), yv(), method=me), Raises('NotImplementedError'))
        for lab, b in (('kernel set', lambda: kset(ck, 2)), ('list', lambda: PList([km(ck, 'k0'), km(ck, 'k1')])), ('kernel matrix', lambda: km(ck, 'k0')),
                       ('string', lambda: 'light'), ('None', lambda: None), ('array', lambda: env.arr('K', (n, n)))):
            for me in methods + ['CV_RISK']:
                ck.case('find_optimal_kernel(%s, method=%r)' % (lab, me), lambda: (env.pos(), call(ip, fo, b(), env.arr('X', (n, d)), yv(), method=me))[1], Raises('TypeError'))
        for me in methods:
            ck.case('advertised method %r' % me, lambda: call(ip, rk_, kset(ck, 2), yv(), method=me),
                    Pred(lambda o: o.kind == 'ok' and (None if isinstance(o.val, Unk) else isinstance(o.val, (Arr, PList))), 'scores'))

    ps = (2, 3) if ck.tier == 'quick' else (2, 3, 4)
    jobs = []
    for p in reversed(ps):
        if p < 4:
            jobs += [lambda p=p, part=part: al_best(p, part) for part in range(4)]
        for norm in (False, True):
            jobs.append(lambda p=p, nm=norm: cv_cases(p, nm))
            if not (norm and p > 2):
                jobs.append(lambda p=p, nm=norm: al_cases(p, nm))
    jobs.append(misc)
    with finite(ip):
        ck.fork(jobs)
