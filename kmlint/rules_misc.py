"""Ownership of caller data (C22), effects and imports (C23), helpers (C26)."""
import ast
import os
from .core import *
from .harness import *
from . import models as M
from .registry import rule, call, meth, attr, new
from .rules_ops import el, S, finite, notclose0, kset, pick
from .rules_km import isc
from .rules_set import km, items, with_val
from .rules_est import mat, arr, SIZE

n, m, d = N, M_, D
i, j = I(0), I(1)
fs = lambda nm: Sc(sym(nm), 'float')


class Each(Want):
    """Every component of the result satisfies its requirement."""

    def __init__(self, wants, text):
        self.w, self.t = wants, text

    def parts(self, o):
        if o.kind != 'ok':
            return describe(o)
        if not isinstance(o.val, tuple) or len(o.val) != len(self.w):
            raise Undecided('unexpected result')
        return [(lab, w, with_val(o, v)) for (lab, w), v in zip(self.w, o.val)]

    def static(self, ck, o):
        ps = self.parts(o)
        if isinstance(ps, str):
            return False
        rs = [w.static(ck, x) for _, w, x in ps]
        return False if False in rs else None if None in rs else True

    def at(self, ck, o, v):
        ps = self.parts(o)
        if isinstance(ps, str):
            return ps
        for lab, w, x in ps:
            r = w.at(ck, x, v)
            if r:
                return '%s: %s' % (lab, r)

    def __str__(self):
        return self.t


class Holds(Want):
    """The scenario itself reports: a text for a breach, '' for none, None for
    unknown (object identity is only meaningful before the path is frozen)."""

    def __init__(self, text):
        self.text = text

    def static(self, ck, o):
        if o.kind != 'ok':
            return False
        return None if o.val is None else o.val == ''

    def at(self, ck, o, v):
        if o.kind != 'ok':
            return describe(o)
        if o.val is None:
            raise Undecided('unknown value')
        return o.val or None

    def __str__(self):
        return self.text


NEW = Holds('a new array')
ASWAS = Holds('the argument as it was')


def shares(r, others):
    if isinstance(r, Unk) or any(isinstance(x, Unk) for x in others):
        return None
    if not isinstance(r, Arr):
        return ''
    return 'the result shares its storage with the argument' if any(isinstance(x, Arr) and x.root() is r.root() for x in others) else ''


def differs(l, before):
    if isinstance(l, Unk):
        return None
    c = l.concrete() if isinstance(l, (PList, PDict)) else items(l)
    if c is None:
        return None
    c = [y for x in c for y in x] if isinstance(l, PDict) else list(c)
    if any(isinstance(x, Unk) for x in c):
        return None
    ok = len(c) == len(before) and all(a is b or (not isinstance(a, Obj) and vkey(a) == vkey(b)) for a, b in zip(c, before))
    return '' if ok else 'the members of the argument changed'


@rule('C22')
def c22(ck):
    env, ip = ck.env, ck.ip

    def quiet(f):
        try:
            f()
        except PyRaise:
            pass

    def keeps(label, specs, fn_, limit=300):
        """The named arrays are unchanged by fn_, whether it returns or raises."""
        def run():
            env.pos(n, m, d, SIZE['W'])
            vs = [env.arr(nm, sh, dt) for nm, sh, dt in specs]
            quiet(lambda: fn_(*vs))
            return tuple(vs)
        ck.case(label, run, Each([('argument %s' % nm, ArrIs(sh, el(nm, *[I(k) for k in range(len(sh))]) if dt.name != 'bool' else None, dt=dt.name))
                                  for nm, sh, dt in specs], 'arguments as they were'), limit=limit)

    def listkeeps(label, fn_, mk):
        def run():
            env.pos(n, m, d, SIZE['W'])
            l = mk()
            c = l.concrete()
            before = [y for x in c for y in x] if isinstance(l, PDict) else list(c)
            quiet(lambda: fn_(l))
            return differs(l, before)
        ck.case(label, run, ASWAS, limit=300)

    def apart(label, specs, fn_):
        def run():
            env.pos()
            vs = [env.arr(nm, sh, dt) for nm, sh, dt in specs]
            return shares(fn_(*vs), vs)
        ck.case(label + ': storage of the result', run, lambda o: Anything() if o.kind == 'raise' else NEW, limit=300)

    sq = lambda nm, dt=F8: (nm, (n, n), dt)

    def ops():
        f = lambda x: env.get('operations.' + x)
        one = [('center_km', []), ('normalize_km', []), ('normalize_km', ['cosine']), ('normalize_km', ['unknown']), ('frobenius_norm', []),
               ('is_positive_semidefinite', [])]
        for nm, extra in one:
            for dt in (F8, I8):
                keeps('%s(%s, %s)' % (nm, dt.name, extra), [sq('K', dt)], lambda K: call(ip, f(nm), K))
            keeps('%s(rectangular, %s)' % (nm, extra), [('K', (n, m), F8)], lambda K: call(ip, f(nm), K))
            if nm in ('center_km', 'normalize_km') and extra != ['unknown']:
                apart('%s(%s)' % (nm, extra), [sq('K')], lambda K: call(ip, f(nm), K))
        for nm in ('frobenius_product', 'eval_similarity'):
            keeps(nm, [sq('K'), sq('L')], lambda a, b: call(ip, f(nm), a, b))
        for kw in ({}, {'value_if_zero_division': 'raise'}, {'value_if_zero_division': 0}, {'centered_already': True}):
            for dt in (F8, I8):
                keeps('alignment_centered(%s, %s)' % (kw, dt.name), [sq('K', dt), sq('L', dt)], lambda a, b: call(ip, f('alignment_centered'), a, b, **kw))
        for extra in ([], ['cosine'], ['unknown']):
            keeps('normalize_km_2sample(%s)' % extra, [('C', (n, m), F8), ('a', (n,), F8), ('b', (m,), F8)],
                  lambda C, a, b: call(ip, f('normalize_km_2sample'), C, a, b))
        apart('normalize_km_2sample', [('C', (n, m), F8), ('a', (n,), F8), ('b', (m,), F8)], lambda C, a, b: call(ip, f('normalize_km_2sample'), C, a, b))
        for p in (2, 3):
            for nw in (False, True):
                for dt in (F8, I8):
                    keeps('linear_combination(%d kernels, %s weights, norm_weights=%s)' % (p, dt.name, nw), [('w', (P(p),), dt)],
                          lambda w: call(ip, f('linear_combination'), kset(ck, p), w, norm_weights=nw))
                listkeeps('linear_combination(%d kernels, list of weights, norm_weights=%s)' % (p, nw),
                          lambda l: call(ip, f('linear_combination'), kset(ck, p), l, norm_weights=nw), lambda: PList([Sc(sym('w%d' % a), 'float') for a in range(p)]))
        g = lambda x: env.get('sampling.' + x)
        keeps('ideal_kernel', [('y', (n,), F8)], lambda y: call(ip, g('ideal_kernel'), y))
        keeps('ideal_kernel(column)', [('y', (n, P(1)), F8)], lambda y: call(ip, g('ideal_kernel'), y))
        keeps('correlation_km', [sq('K'), sq('L')], lambda a, b: call(ip, g('correlation_km'), a, b))
        u = lambda x: env.get('utils.' + x)
        for dt in (F8, I8):
            for nm in ('min_max_scale', 'ensure_ndarray_1D', 'contains_nan_inf'):
                keeps('%s(%s)' % (nm, dt.name), [('a', (n,), dt)], lambda a: call(ip, u(nm), a))
            for nm in ('ensure_ndarray_2D', 'not_symmetric', 'contains_nan_inf', 'min_max_scale'):
                keeps('%s(%s matrix)' % (nm, dt.name), [('a', (n, m), dt)], lambda a: call(ip, u(nm), a))
            keeps('check_input_arrays(%s)' % dt.name, [('a', (n,), dt), ('b', (m,), dt)], lambda a, b: call(ip, u('check_input_arrays'), a, b))
            keeps('ensure_ndarray_1D(%s as float)' % dt.name, [('a', (n,), dt)], lambda a: call(ip, u('ensure_ndarray_1D'), a, env.ev('float')))
        for nm in ('min_max_scale', 'ensure_ndarray_1D'):
            listkeeps('%s(list)' % nm, lambda l: call(ip, u(nm), l), lambda: PList([Sc(sym('w%d' % a), 'float') for a in range(3)]))

    def kernels():
        ks = [('numeric_kernels.PolyKernel', {}), ('numeric_kernels.PolyKernel', {'degree': 3, 'b': fs('b')}), ('numeric_kernels.GaussianKernel', {}),
              ('numeric_kernels.LaplacianKernel', {}), ('numeric_kernels.LinearKernel', {}), ('numeric_kernels.SigmoidKernel', {}),
              ('numeric_kernels.Chi2Kernel', {}), ('numeric_kernels.HadamardKernel', {}), ('categorical.MatchCountKernel', {}),
              ('categorical.MatchCountKernel', {'return_perc': False})]
        for path, kw in ks:
            for skip in (False, True):
                for dt in (F8, I8):
                    for sh in ((n,), (n, P(1))) if not skip else ((n,),):
                        keeps('%s(%s, skip_input_checks=%s)(%s %s)' % (path.split('.')[1], ', '.join(kw), skip, dt.name, len(sh)),
                              [('x', sh, dt), ('y', sh, dt)], lambda x, y: call(ip, new(env, path, skip_input_checks=skip, **kw), x, y))
        keeps('KernelFromCallable', [('x', (n,), F8), ('y', (n,), F8)],
              lambda x, y: call(ip, new(env, 'base.KernelFromCallable', env.ev('lambda a, b, c=1: c', a=1)), x, y))

    # kernel matrices -------------------------------------------------------
    ACC = [('full', lambda K: attr(ip, K, 'full')), ('full_sparse', lambda K: attr(ip, K, 'full_sparse')), ('centered', lambda K: attr(ip, K, 'centered')),
           ('normed_km', lambda K: attr(ip, K, 'normed_km')), ('normalize', lambda K: meth(ip, K, 'normalize')), ('center', lambda K: meth(ip, K, 'center')),
           ('frob_norm', lambda K: attr(ip, K, 'frob_norm')), ('diagonal', lambda K: meth(ip, K, 'diagonal')), ('size', lambda K: attr(ip, K, 'size')),
           ('all entries', lambda K: env.ev('K[:, :]', K=K)), ('one entry', lambda K: env.ev('K[0, 0]', K=K)), ('one row', lambda K: env.ev('K[0, :]', K=K)),
           ('str', lambda K: env.ev('str(K)', K=K))]

    def mats(norm):
        tag = 'normalized ' if norm else ''

        for nm, f in ACC:
            keeps('%skernel matrix, %s' % (tag, nm), [('X', (n, d), F8)],
                  lambda X: (lambda K: (meth(ip, K, 'attach_to', X), f(K)))(new(env, 'base.KernelMatrix', env.kernel('k'), normalized=norm)))
            keeps('%stwo-sample kernel matrix, %s' % (tag, nm), [('X', (n, d), F8), ('Y', (m, d), F8)],
                  lambda X, Y: (lambda K: (meth(ip, K, 'attach_to', X, sample_two=Y), f(K)))(new(env, 'base.KernelMatrix', env.kernel('k'), normalized=norm)))

            # the full matrix handed out earlier
            def run(order, t):
                def go():
                    env.pos()
                    K = new(env, 'base.KernelMatrix', env.kernel('k'), normalized=norm)
                    meth(ip, K, 'attach_to', env.arr('X', (n, d)), **({'sample_two': env.arr('Y', (m, d))} if t else {}))
                    F = attr(ip, K, 'full')
                    for g in order:
                        quiet(lambda: g(K))
                    return (F,)
                return go
            for t in (False, True):
                w = Each([('the full matrix read before', mat('k', 'X', 'Y' if t else 'X', norm))], 'the full matrix as it was')
                tol = (lambda o, w=w: Anything() if o.kind == 'raise' else w) if norm else w
                ck.case('%s%skernel matrix: full, then %s' % (tag, 'two-sample ' if t else '', nm), run([f], t), tol)
                if not t:
                    for nm2, f2 in ACC[2:6]:
                        ck.case('%skernel matrix: full, then %s, then %s' % (tag, nm2, nm), run([f2, f], t), tol)
        # what was computed from an earlier sample, after attaching to another
        for nm, f in ACC[:7]:
            def again():
                env.pos()
                K = new(env, 'base.KernelMatrix', env.kernel('k'), normalized=norm)
                meth(ip, K, 'attach_to', env.arr('X', (n, d)))
                F = attr(ip, K, 'full')
                meth(ip, K, 'attach_to', env.arr('Z', (n, d)))
                quiet(lambda: f(K))
                return (F,)
            w = Each([('the full matrix of the earlier sample', mat('k', 'X', 'X', norm))], 'the full matrix as it was')
            ck.case('%skernel matrix: full, then attached to another sample, then %s' % (tag, nm), again,
                    (lambda o, w=w: Anything() if o.kind == 'raise' else w) if norm else w)
        for nm in ('centered', 'normed_km') if not norm else ('centered',):
            def go():
                env.pos()
                K = new(env, 'base.KernelMatrix', env.kernel('k'), normalized=False)
                meth(ip, K, 'attach_to', env.arr('X', (n, d)))
                F = attr(ip, K, 'full')
                return shares(attr(ip, K, nm), [F])
            ck.case('kernel matrix: storage of %s' % nm, go, lambda o: Anything() if o.kind == 'raise' else NEW)
        if norm:
            return
        for nm, f in (('full', lambda K: attr(ip, K, 'full')), ('diag', lambda K: attr(ip, K, 'diag')), ('size', lambda K: attr(ip, K, 'size')),
                      ('entries', lambda K: env.ev('K[0, 1]', K=K)), ('str', lambda K: env.ev('str(K)', K=K))):
            for dt in (F8, I8):
                keeps('precomputed kernel matrix (%s), %s' % (dt.name, nm), [sq('A', dt)], lambda A_: f(new(env, 'base.KernelMatrixPrecomputed', A_)))

    # sets ------------------------------------------------------------------
    def fulls(label, build, after, want, limit=400):
        """Matrices read from the members beforehand stay as they were."""
        def run():
            env.pos()
            s = build()
            F = tuple(attr(ip, x, 'full') for x in items(env.ev('list(s)', s=s)))
            quiet(lambda: after(s))
            return F
        ck.case(label, run, Each([('the full matrix of member %d' % k, w) for k, w in enumerate(want)], 'the matrices of the members as they were'), limit=limit)

    def sets(part):
        y = lambda dt=F8: env.arr('y', (n,), dt)
        rk, pw = env.get('ranking.rank_kernels'), env.get('sampling.pairwise_similarity')
        comp = [('SumKernel', []), ('ProductKernel', []), ('AverageKernel', []), ('WeightedAverageKernel', ['w'])]
        for p in (2, 3) if part == 0 else ():
            W = [mat('k%d' % a, 'X', 'X', False) for a in range(p)]
            weights = lambda: env.arr('w', (P(p),))

            def do(cls, ex):
                def f(s):
                    c = new(env, 'base.' + cls, s, *([weights()] if ex else []))
                    meth(ip, c, 'fit')
                    meth(ip, c, 'fit')
                    attr(ip, c, 'full')
                return f
            for cls, ex in comp:
                fulls('%s of %d kernels' % (cls, p), lambda: kset(ck, p), do(cls, ex), W)
                # precomputed members are the caller's own arrays
                keeps('%s of %d precomputed matrices' % (cls, p), [sq('A%d' % a) for a in range(p)],
                      lambda *As: do(cls, ex)(new(env, 'base.KernelSet', PList(list(As)))))

                def own():
                    env.pos()
                    s = kset(ck, p)
                    F = [attr(ip, x, 'full') for x in items(env.ev('list(s)', s=s))]
                    c = new(env, 'base.' + cls, s, *([weights()] if ex else []))
                    meth(ip, c, 'fit')
                    return shares(attr(ip, c, 'full'), F)
                ck.case('%s of %d kernels: storage of the result' % (cls, p), own, NEW)
            fulls('SumKernel of %d kernels with weights' % p, lambda: kset(ck, p), lambda s: meth(ip, new(env, 'base.SumKernel', s), 'fit', weights()), W)
            keeps('SumKernel.fit(weights for %d kernels)' % p, [('w', (P(p),), F8)], lambda w: meth(ip, new(env, 'base.SumKernel', kset(ck, p)), 'fit', w))
            keeps('WeightedAverageKernel(weights for %d kernels)' % p, [('w', (P(p),), F8)],
                  lambda w: meth(ip, new(env, 'base.WeightedAverageKernel', kset(ck, p), w), 'fit'))
            fulls('linear combination of %d kernels' % p, lambda: kset(ck, p), lambda s: call(ip, env.get('operations.linear_combination'), s, weights()), W)
            fulls('normalized linear combination of %d kernels' % p, lambda: kset(ck, p),
                  lambda s: call(ip, env.get('operations.linear_combination'), s, weights(), norm_weights=True), W)

            def lc():
                env.pos()
                s = kset(ck, p)
                F = [attr(ip, x, 'full') for x in items(env.ev('list(s)', s=s))]
                return shares(call(ip, env.get('operations.linear_combination'), s, weights()), F)
            ck.case('linear combination of %d kernels: storage of the result' % p, lc, lambda o: Anything() if o.kind == 'raise' else NEW)
        if part == 1:
            p = 2
            W = [mat('k%d' % a, 'X', 'X', False) for a in range(p)]
            for me in items(env.get('config.VALID_RANKING_METHODS')):
                fulls('rank_kernels(%s)' % me, lambda: kset(ck, p), lambda s: call(ip, rk, s, y(), method=me), W)
                keeps('targets of rank_kernels(%s)' % me, [('y', (n,), F8)], lambda yy: call(ip, rk, kset(ck, p), yy, method=me))
            for me in ('corr', 'align'):
                fulls('pairwise_similarity(%s)' % me, lambda: kset(ck, p), lambda s: call(ip, pw, s, metric=me), W)
                keeps('pairwise_similarity(%s) of precomputed matrices' % me, [sq('A0'), sq('A1')],
                      lambda *As: call(ip, pw, new(env, 'base.KernelSet', PList(list(As))), metric=me))
            keeps('rank_kernels of precomputed matrices', [sq('A0'), sq('A1'), ('y', (n,), F8)],
                  lambda a, b, yy: call(ip, rk, new(env, 'base.KernelSet', PList([a, b])), yy, method='cv_risk'))
            keeps('alignment ranking of precomputed matrices', [sq('A0'), sq('A1'), ('y', (n,), F8)],
                  lambda a, b, yy: call(ip, rk, new(env, 'base.KernelSet', PList([a, b])), yy, method='align/corr'))
            ms = lambda: PList([km(ck, 'k0'), km(ck, 'k1')])
            ks = lambda l: new(env, 'base.KernelSet', l)
            listkeeps('KernelSet(list)', ks, ms)
            listkeeps('KernelSet(list).append', lambda l: meth(ip, ks(l), 'append', km(ck, 'k2')), ms)
            listkeeps('KernelSet(list).extend', lambda l: meth(ip, ks(l), 'extend', kset(ck, 2)), ms)
            listkeeps('KernelSet(list).take', lambda l: meth(ip, ks(l), 'take', PList([1])), ms)
            listkeeps('KernelSet.take(list)', lambda l: meth(ip, kset(ck, 3), 'take', l), lambda: PList([2, 0]))
            listkeeps('KernelSet.get_kernel_funcs(list)', lambda l: meth(ip, kset(ck, 3), 'get_kernel_funcs', l), lambda: PList([2, 0]))
            listkeeps('KernelSet.set_attr(list)', lambda l: (lambda s: (meth(ip, s, 'set_attr', 'a', l), meth(ip, s, 'set_attr', 'a', 1), meth(ip, s, 'get_attr', 'a')))(kset(ck, 2)),
                      lambda: PList(['p', 'q']))
            keeps('KernelSet.take(array)', [('ix', (P(2),), I8)], lambda ix: meth(ip, kset(ck, 3), 'take', ix))
            # another set
            def other(f):
                def run():
                    a, b = kset(ck, 2), kset(ck, 2, names='q')
                    before = list(items(env.ev('list(b)', b=b)))
                    quiet(lambda: f(a, b))
                    return differs(env.ev('list(b)', b=b), before)
                return run
            ck.case('extend: the other set', other(lambda a, b: meth(ip, a, 'extend', b)), ASWAS)
            ck.case('extend, then append: the other set', other(lambda a, b: (meth(ip, a, 'extend', b), meth(ip, a, 'append', km(ck, 'k5')))), ASWAS)
            ck.case('take, then append: the original set', other(lambda a, b: meth(ip, meth(ip, b, 'take', PList([0, 1])), 'append', km(ck, 'k5'))), ASWAS)
            ck.case('ranking: the set', other(lambda a, b: call(ip, rk, b, y(), method='cv_risk')), ASWAS)
            ck.case('pairwise similarity: the set', other(lambda a, b: call(ip, pw, b)), ASWAS)
            for cls, ex in comp:
                ck.case('%s: the set' % cls, other(lambda a, b: meth(ip, new(env, 'base.' + cls, b, *([env.arr('w', (P(2),))] if ex else [])), 'fit')), ASWAS)
            keeps('KernelSet.attach_to', [('X', (n, d), F8)],
                  lambda X: (lambda s: (meth(ip, s, 'attach_to', X), attr(ip, M.getitem(ip, s, 0), 'full')))(kset(ck, 2, attach=False)))
            keeps('KernelSet(arrays).append(array)', [sq('A'), sq('B'), sq('C')], lambda a, b, c: meth(ip, ks(PList([a, b])), 'append', c))
            for nm, mk in (('poly_degree_values', lambda: PList([2, 3])), ('rbf_sigma_values', lambda: PList([fs('s1'), fs('s2')])),
                           ('laplace_gamma_values', lambda: PList([fs('s1')])), ('sigmoid_gamma_values', lambda: PList([fs('s1')])),
                           ('sigmoid_offset_values', lambda: PList([fs('s1')]))):
                listkeeps('KernelBucket(%s)' % nm, lambda l: new(env, 'sampling.KernelBucket', **{nm: l}), mk)
            listkeeps('KernelFromCallable(parameters)', lambda dct: (lambda k: call(ip, k, env.arr('x', (n,)), env.arr('y', (n,))))(
                ip.call(env.get('base.KernelFromCallable'), [env.ev('lambda a, b, c=1: c', a=1)], dict(dct.concrete()))), lambda: PDict([('c', 2)]))
            # attributes given to a kernel matrix
            listkeeps('KernelMatrix.set_attr(list)', lambda l: (lambda K: (meth(ip, K, 'set_attr', 'a', l), attr(ip, K, 'full'), meth(ip, K, 'get_attr', 'a')))(km(ck, 'k')),
                      lambda: PList([1, 2]))

    def estimators():
        args3 = [('X', (n, d), F8), ('y', (n,), I8), ('w', (n,), F8), ('Y', (m, d), F8)]

        def use(mk):
            def f(X, y, w, Y):
                e = mk()
                meth(ip, e, 'fit', X, y, sample_weight=w)
                meth(ip, e, 'predict', Y)
                meth(ip, e, 'fit', X, y)
                meth(ip, e, 'predict', X)
            return f
        for cls in ('KernelMachine', 'KernelMachineRegressor'):
            for norm in (False, True):
                for dt in (F8, I8):
                    keeps('%s(normalized=%s), %s targets' % (cls, norm, dt.name), [('X', (n, d), F8), ('y', (n,), dt), ('w', (n,), F8), ('Y', (m, d), F8)],
                          use(lambda: new(env, 'algorithms.' + cls, env.kernel('k'), normalized=norm)))

        def bucket():
            b = new(env, 'sampling.KernelBucket', poly_degree_values=None, rbf_sigma_values=None, laplace_gamma_values=None,
                    sigmoid_gamma_values=None, sigmoid_offset_values=None, normalize_kernels=False)
            meth(ip, b, 'append', km(ck, 'k1', None))
            return b
        for cls in ('OptimalKernelSVC', 'OptimalKernelSVR'):
            def once(X, y, w, Y):
                e = new(env, 'algorithms.' + cls, bucket())
                meth(ip, e, 'fit', X, y, sample_weight=w)
                meth(ip, e, 'predict', Y)
            keeps(cls, args3, once)
            for me in items(env.get('config.VALID_RANKING_METHODS')):
                keeps('%s(method=%s)' % (cls, me), args3, lambda X, y, w, Y: meth(ip, new(env, 'algorithms.' + cls, bucket(), method=me), 'fit', X, y))
                keeps('find_optimal_kernel(%s)' % me, [('X', (n, d), F8), ('y', (n,), F8)],
                      lambda X, y: call(ip, env.get('ranking.find_optimal_kernel'), bucket(), X, y, method=me))
    with finite(ip):
        ck.fork([estimators, lambda: sets(0), lambda: sets(1), lambda: mats(True), lambda: mats(False), kernels, ops])


# ---------------------------------------------------------------- C23
RANDOM = ('numpy.random', 'random', 'secrets', 'uuid', 'os.urandom', 'os.getrandom', 'scipy.sparse.random', 'scipy.sparse.random_array', 'scipy.sparse.rand',
          'scipy.stats.bootstrap', 'scipy.stats.permutation_test', 'scipy.stats.monte_carlo_test', 'sklearn.utils.shuffle', 'sklearn.utils.resample',
          'sklearn.utils.check_random_state', 'sklearn.model_selection.ShuffleSplit', 'sklearn.model_selection.StratifiedShuffleSplit',
          'sklearn.model_selection.GroupShuffleSplit', 'sklearn.model_selection.RepeatedKFold', 'sklearn.model_selection.RepeatedStratifiedKFold',
          'sklearn.model_selection.RandomizedSearchCV', 'sklearn.model_selection.ParameterSampler', 'sklearn.model_selection.train_test_split',
          'sklearn.model_selection.HalvingGridSearchCV', 'sklearn.utils.extmath.randomized_svd', 'sklearn.utils.random')
CLOCK = ('time', 'datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow', 'datetime.date.today', 'timeit')
OUTSIDE = ('os', 'io', 'socket', 'ssl', 'urllib', 'http', 'requests', 'ftplib', 'smtplib', 'subprocess', 'tempfile', 'shutil', 'glob', 'pathlib', 'platform',
           'getpass', 'locale', 'fileinput', 'shelve', 'dbm', 'sqlite3', 'configparser', 'joblib.Memory', 'joblib.dump', 'joblib.load', 'logging.FileHandler',
           'logging.basicConfig', 'sys.argv', 'sys.stdin', 'builtins.open', 'builtins.input', 'builtins.eval', 'builtins.exec', 'builtins.breakpoint',
           'numpy.load', 'numpy.save', 'numpy.savez', 'numpy.savez_compressed', 'numpy.loadtxt', 'numpy.savetxt', 'numpy.genfromtxt', 'numpy.fromfile', 'numpy.memmap',
           'numpy.lib.npyio', 'scipy.io', 'scipy.sparse.save_npz', 'scipy.sparse.load_npz', 'sklearn.datasets', 'pandas', 'importlib.resources', 'pkgutil.get_data')
PURE = ('os.path.join', 'os.path.basename', 'os.path.dirname', 'os.path.splitext', 'os.path.normpath', 'os.path.split', 'os.path.sep', 'os.sep', 'os.linesep', 'os.PathLike',
        'os.fspath', 'io.StringIO', 'io.BytesIO', 'pathlib.PurePath', 'pathlib.PurePosixPath')
SETTING = ('numpy.seterr', 'numpy.seterrcall', 'numpy.set_printoptions', 'numpy.setbufsize', 'numpy.set_string_function', 'numpy.random.seed', 'numpy.random.set_state',
           'random.seed', 'random.setstate', 'scipy.special.seterr', 'sklearn.set_config', 'sys.setrecursionlimit', 'sys.settrace', 'sys.setprofile', 'sys.setswitchinterval',
           'locale.setlocale', 'os.putenv', 'os.chdir', 'os.umask', 'faulthandler.enable', 'gc.disable', 'gc.set_threshold', 'signal.signal', 'atexit.register')
FILTERS = ('warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings')
STARTVEC = ('scipy.sparse.linalg.eigsh', 'scipy.sparse.linalg.eigs', 'scipy.sparse.linalg.svds')
SHUFFLERS = ('sklearn.model_selection.KFold', 'sklearn.model_selection.StratifiedKFold', 'sklearn.model_selection.GroupKFold', 'sklearn.model_selection.StratifiedGroupKFold')


GENERATORS = ('RandomState', 'default_rng', 'Random', 'PCG64', 'MT19937', 'SeedSequence', 'Philox', 'SFC64')


def under(nm, group):
    return any(nm == g or nm.startswith(g + '.') for g in group)


class Refs:
    """External names reached by every name and attribute chain of a module."""

    def __init__(self, md):
        self.md = md
        self.alias = {}        # scope node -> {local name: dotted}
        for x in ast.walk(md.tree):
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                sc = self.scope(x)
                t = self.alias.setdefault(sc, {})
                if isinstance(x, ast.Import):
                    for a in x.names:
                        t[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                elif not x.level:
                    for a in x.names:
                        t[a.asname or a.name] = x.module + '.' + a.name
        # plain aliases:  rand = np.random.rand
        for x in ast.walk(md.tree):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, (ast.Name, ast.Attribute)):
                nm = self.dotted(x.value)
                if nm and '.' in nm:
                    self.alias.setdefault(self.scope(x), {}).setdefault(x.targets[0].id, nm)

    def scope(self, x):
        while x in self.md.parent:
            x = self.md.parent[x]
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                return x
        return None

    def lookup(self, node, name):
        x, first = node, True
        while True:
            x = self.scope(x)
            if x is not None and isinstance(x, ast.ClassDef) and not first:
                continue
            first = False
            t = self.alias.get(x, {})
            if name in t:
                return t[name]
            if x is None:
                break
            if not isinstance(x, ast.ClassDef) and self.binds(x, name):
                return None
        if name in self.md.names:
            return None
        import builtins
        return 'builtins.' + name if hasattr(builtins, name) else None

    def binds(self, f, name):
        a = f.args
        if name in {y.arg for y in a.args + a.posonlyargs + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z]}:
            return True
        return any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store) for y in ast.walk(f))

    def dotted(self, x):
        parts = []
        while isinstance(x, ast.Attribute):
            parts.append(x.attr)
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        r = self.lookup(x, x.id)
        return None if r is None else '.'.join([r] + parts[::-1])

    def uses(self):
        """(node, dotted name) of every maximal chain that is read."""
        for x in ast.walk(self.md.tree):
            if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load):
                p = self.md.parent.get(x)
                if isinstance(p, ast.Attribute):
                    continue
                nm = self.dotted(x)
                if nm:
                    yield x, nm

    def harmless(self, x):
        """Only the type is looked at, or the name is annotated with."""
        while x in self.md.parent:
            p = self.md.parent[x]
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ('isinstance', 'issubclass') and x in p.args[1:]:
                return True
            if isinstance(p, ast.arg) or isinstance(p, ast.AnnAssign) and x is p.annotation:
                return True
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)) and x is p.returns:
                return True
            if isinstance(p, ast.stmt):
                return False
            x = p
        return False

    def funcs(self, x):
        r = []
        while x in self.md.parent:
            x = self.md.parent[x]
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                r.append(x)
        return r

    def restored(self, x, nm):
        """Is the setting undone: inside a context that saves it, or with the
        same setter called again in a finally clause of the function?"""
        y = x
        while y in self.md.parent:
            y = self.md.parent[y]
            if isinstance(y, (ast.With, ast.AsyncWith)):
                for it in y.items:
                    c = it.context_expr
                    c = c.func if isinstance(c, ast.Call) else c
                    if (self.dotted(c) or '').startswith(('warnings.catch_warnings', 'numpy.errstate', 'numpy.printoptions', 'sklearn.config_context')):
                        return True
            if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for t in ast.walk(y):
                    if isinstance(t, ast.Try):
                        for b in t.finalbody:
                            for z in ast.walk(b):
                                if isinstance(z, (ast.Name, ast.Attribute)) and self.dotted(z) == nm:
                                    return True
                break
        return False


def hermetic(ck, mods):
    """Effects that library code must not have."""
    cnt = 0
    refs = {nm: Refs(md) for nm, md in mods.items()}
    # functions that serve nothing but the self-check
    named = {}
    for nm, md in mods.items():
        for x in ast.walk(md.tree):
            t = x.id if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) else x.attr if isinstance(x, ast.Attribute) and \
                isinstance(md.parent.get(x), ast.Call) and md.parent[x].func is x else None
            if t:
                named.setdefault(t, []).append([f.name for f in refs[nm].funcs(x)])

    def selfcheck(fs, seen=()):
        for f in fs:
            if f == 'is_psd':
                return True
            if f in seen:
                continue
            users = named.get(f, [])
            if users and all(selfcheck(u, seen + (f,)) for u in users):
                return True
        return False

    def truthy(call, kw):
        for k in call.keywords:
            if k.arg == kw:
                return not (isinstance(k.value, ast.Constant) and not k.value.value)
        return False

    def seeded(call, pos=None):
        for k in call.keywords:
            if k.arg in ('random_state', 'seed', 'rng'):
                return not (isinstance(k.value, ast.Constant) and k.value.value is None)
        return pos is not None and len(call.args) > pos and not (isinstance(call.args[pos], ast.Constant) and call.args[pos].value is None)
    for nm, md in mods.items():
        if nm.endswith('._version'):
            continue
        rf = refs[nm]
        for x, dn in rf.uses():
            cnt += 1
            if rf.harmless(x):
                continue
            why = None
            par = md.parent.get(x)
            called = isinstance(par, ast.Call) and par.func is x
            if under(dn, SETTING):
                if not rf.restored(x, dn):
                    why = 'changes a process-wide setting'
            elif under(dn, FILTERS):
                if not rf.restored(x, dn):
                    why = 'changes the warning filters of the process'
            elif under(dn, RANDOM):
                if called and seeded(par, 0 if dn.startswith(('numpy.random.', 'random.')) and dn.split('.')[-1] in GENERATORS else None):
                    continue
                if not selfcheck([f.name for f in rf.funcs(x)]):
                    why = 'draws random numbers outside the self-check of a kernel'
            elif under(dn, CLOCK):
                why = 'reads the clock'
            elif under(dn, OUTSIDE) and not under(dn, PURE):
                why = 'reads or changes the environment, files or network'
            elif under(dn, STARTVEC) and called and not truthy(par, 'v0') and not truthy(par, 'rng'):
                why = 'starts from a random vector'
            elif under(dn, SHUFFLERS) and called and truthy(par, 'shuffle') and not seeded(par):
                why = 'shuffles the samples at random'
            elif dn.startswith('sklearn.svm.') and called and truthy(par, 'probability') and not seeded(par):
                why = 'calibrates probabilities on random folds'
            if why:
                ck.violation('effects of ' + md.rel, '%s: %s %s' % (md.where(x), dn, why))
        for x in ast.walk(md.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                if x.func.attr in ('rvs', 'read_text', 'read_bytes', 'write_text', 'write_bytes', 'urlopen') and not selfcheck([f.name for f in rf.funcs(x)]):
                    ck.violation('effects of ' + md.rel, '%s: .%s() draws random numbers or accesses files' % (md.where(x), x.func.attr))
            # stores to settings: os.environ[...] = , np.random.x =, sys.stdout =
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                b = x.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                dn = rf.dotted(b) if isinstance(b, (ast.Name, ast.Attribute)) else None
                if dn and not dn.startswith(('kernelmethods', 'builtins')) and not (isinstance(b, ast.Name) and rf.scope(x) is not None and dn == b.id and False):
                    cnt += 1
                    if not rf.restored(x, dn):
                        ck.violation('effects of ' + md.rel, '%s: changes %s of the process' % (md.where(x), dn))
    return cnt


NAMES = {'KernelMatrix': 'base', 'BaseKernelFunction': 'base', 'KernelSet': 'base', 'KernelMethodsException': 'config', 'KMAccessError': 'config', 'KMNormError': 'config',
         'KMSetAdditionError': 'config', 'PolyKernel': 'numeric_kernels', 'GaussianKernel': 'numeric_kernels', 'LaplacianKernel': 'numeric_kernels',
         'LinearKernel': 'numeric_kernels', 'Chi2Kernel': 'numeric_kernels', 'SigmoidKernel': 'numeric_kernels', 'HadamardKernel': 'numeric_kernels',
         'KernelBucket': 'sampling', 'KernelMachine': 'algorithms', 'KernelMachineRegressor': 'algorithms', 'OptimalKernelSVC': 'algorithms',
         'OptimalKernelSVR': 'algorithms'}
HEAVY = ('sklearn', 'pandas', 'matplotlib', 'imblearn', 'xgboost')


def fresh(root):
    from .interp import Interp
    return Interp(root)


def imports(ck):
    """Start-up of the package in fresh interpreters."""
    root = ck.env.root
    cnt = 0

    def attempt(label, f):
        nonlocal cnt
        cnt += 1
        ip = fresh(root)
        try:
            return f(ip)
        except PyRaise as e:
            a = e.exc.s.get('args')
            ck.violation(label, 'raises %s %s' % (e.exc.cls.name, a))
        except (GiveUp, Infeasible) as e:
            ck.undecided(label, 'analysis gave up: %s' % e)

    def light(ip):
        ip.import_name('kernelmethods')
        for nm, pos in ip.ext_imports:
            if nm.split('.')[0] == 'sklearn':
                ck.violation('importing kernelmethods', 'imports %s at %s:%s' % (nm, pos[0], pos[2]))
        t = [x for x in ip.st.s['taint'] if 'importlib.metadata' not in str(x[0])]
        if t:
            ck.undecided('importing kernelmethods', 'unknown construct at import: %s' % (t,))
    attempt('importing kernelmethods', light)
    mods = [x for x in ck.env.ip.mods if x.startswith('kernelmethods')]
    for a in mods:
        attempt('importing %s first' % a, lambda ip: ip.import_name(a))

        def then(ip):
            ip.import_name(a)
            for b in mods:
                ip.import_name(b)
        attempt('importing %s, then every other module' % a, then)
    pk = ck.env.ip.mods['kernelmethods']
    al = pk.s.get('__all__')
    al = items(al) if al is not None else ()
    if al is None or any(not isinstance(x, str) for x in al):
        ck.undecided('advertised names', '__all__ is not a list of names')
        al = ()
    for nm in list(NAMES) + [x for x in al if x not in NAMES]:
        def same(ip, first):
            p = ip.import_name('kernelmethods')
            if first and nm in NAMES:
                ip.import_name('kernelmethods.' + NAMES[nm])
            v = [ip.import_from(p, nm), ip.getattr(p, nm), ip.getattr(p, nm)]
            if any(isinstance(x, Unk) for x in v):
                ck.undecided('kernelmethods.' + nm, 'unknown value')
                return
            if nm in NAMES:
                d_ = ip.import_name('kernelmethods.' + NAMES[nm])
                if nm not in d_.s:
                    raise AnchorLost('public name kernelmethods.%s.%s does not exist' % (NAMES[nm], nm))
                v.append(d_.s[nm])
            if any(x is not v[0] for x in v):
                ck.violation('kernelmethods.' + nm, 'is not the class %s of kernelmethods.%s' % (nm, NAMES.get(nm, '')))
        attempt('kernelmethods.%s' % nm, lambda ip: same(ip, False))
        attempt('kernelmethods.%s after its module' % nm, lambda ip: same(ip, True))

    def unknown(ip):
        p = ip.import_name('kernelmethods')
        try:
            ip.getattr(p, 'no_such_name')
        except PyRaise as e:
            if not e.exc.cls.issub(ip.T['AttributeError']):
                ck.violation('kernelmethods.no_such_name', 'raises %s instead of AttributeError' % e.exc.cls.name)
        else:
            ck.violation('kernelmethods.no_such_name', 'an unknown name is found in the package')
    attempt('kernelmethods.no_such_name', unknown)
    return cnt


class Twice(Want):
    """Two observations of equal computations agree."""

    def pairs(self, a, b):
        la, lb = items(a) if isinstance(a, (tuple, PList)) else None, items(b) if isinstance(b, (tuple, PList)) else None
        if la is not None and lb is not None:
            if len(la) != len(lb):
                yield 'the results have %d and %d members' % (len(la), len(lb)), None
                return
            for x, y in zip(la, lb):
                yield from self.pairs(x, y)
            return
        yield a, b

    def one(self, ck, o, a, b, v=None):
        if b is None and isinstance(a, str) and a.startswith('the results'):
            return a if v is not None else False
        if isinstance(a, Unk) or isinstance(b, Unk):
            if v is not None:
                raise Undecided('unknown value')
            return None
        plain = lambda x: x is None or isinstance(x, (bool, str))
        if plain(a) and plain(b):
            ok = a == b
            return ok if v is None else None if ok else 'first %r, then %r' % (a, b)
        w = None
        if isinstance(b, Arr) and b.fmt == 'nd' and isinstance(body_of(b), Poly):
            w = ArrIs(b.shape, body_of(b))
        elif isinstance(b, Sc) or isinstance(b, int):
            w = ScIs(b.p if isinstance(b, Sc) else P(b))
        if w is not None:
            x = with_val(o, a)
            return w.static(ck, x) if v is None else w.at(ck, x, v)
        if vkey(a) == vkey(b):
            return True if v is None else None
        if v is None:
            return None
        raise Undecided('results not comparable')

    def static(self, ck, o):
        if o.kind != 'ok':
            return False
        rs = [self.one(ck, o, a, b) for a, b in self.pairs(*o.val)]
        return False if False in rs else None if None in rs else True

    def at(self, ck, o, v):
        if o.kind != 'ok':
            return describe(o)
        for a, b in self.pairs(*o.val):
            r = self.one(ck, o, a, b, v)
            if r:
                return r

    def __str__(self):
        return 'the same result as before'


def history(ck):
    """The same computation on equal inputs, before and after other work."""
    env, ip = ck.env, ck.ip
    x, y, X = lambda: env.arr('x', (d,)), lambda: env.arr('y', (d,)), lambda: env.arr('X', (n, d))

    def seen(f):
        try:
            return f()
        except PyRaise as e:
            return 'raises ' + e.exc.cls.name

    def funcs(s):
        return tuple(call(ip, attr(ip, K, 'kernel'), x(), y()) for K in items(env.ev('list(s)', s=s)))

    def twice(label, f, between):
        def run():
            env.pos()
            mark = len(ip.journal)
            a = freeze(seen(f))
            ip.rollback(mark)
            seen(between)
            b = freeze(seen(f))
            return ((a, a), (b, seen(f)))
        ck.case('twice: ' + label, run, Twice(), limit=300)
    bucket = lambda **kw: new(env, 'sampling.KernelBucket', **kw)
    mkb = env.get('sampling.make_kernel_bucket')

    def grow():
        b = bucket()
        meth(ip, b, 'append', km(ck, 'k1', None))
        meth(ip, b, 'add_parametrized_kernels', env.get('numeric_kernels.PolyKernel'), 'degree', PList([7]))
        meth(ip, b, 'set_attr', 'tag', 'a')
    twice('KernelBucket()', lambda: funcs(bucket()), grow)
    twice('size of KernelBucket()', lambda: attr(ip, bucket(), 'size'), grow)
    twice('size of KernelSet()', lambda: attr(ip, new(env, 'base.KernelSet'), 'size'), lambda: meth(ip, new(env, 'base.KernelSet'), 'append', km(ck, 'k')))
    for st in ('exhaustive', 'light', 'linear_only'):
        twice('make_kernel_bucket(%s)' % st, lambda: attr(ip, call(ip, mkb, st), 'size'), lambda: meth(ip, call(ip, mkb, st), 'append', km(ck, 'k1', None)))

    def tags(K):
        return (call(ip, env.ev('lambda K: K.get_attr("tag", "none")', a=1), K), attr(ip, K, 'name'))

    def setone():
        K = km(ck, 'k')
        meth(ip, K, 'set_attr', 'tag', 'mine')
        call(ip, env.ev('lambda K: setattr(K, "name", "other")', a=1), K)
    twice('attributes of a kernel matrix', lambda: tags(km(ck, 'k')), setone)
    for nm, args in (('PolyKernel', {}), ('GaussianKernel', {}), ('LaplacianKernel', {}), ('LinearKernel', {}), ('SigmoidKernel', {}), ('HadamardKernel', {}), ('Chi2Kernel', {})):
        path = 'numeric_kernels.' + nm
        other = lambda: call(ip, new(env, path, skip_input_checks=True), env.arr('u', (d,)), env.arr('v', (d,)))
        twice(nm, lambda: call(ip, new(env, path), x(), y()), other)
        one = {}

        def shared():
            env.pos()
            k = new(env, path)
            a = seen(lambda: call(ip, k, x(), y()))
            seen(lambda: call(ip, k, env.arr('u', (d,)), env.arr('v', (d,))))
            return (a, seen(lambda: call(ip, k, x(), y())))
        ck.case('twice: one %s' % nm, shared, Twice(), limit=300)
    for nm in ('full', 'normed_km', 'centered', 'frob_norm'):
        for t in (False, True):
            def mk(kn='k', s='X'):
                K = new(env, 'base.KernelMatrix', env.kernel(kn))
                meth(ip, K, 'attach_to', env.arr(s, (n, d)), **({'sample_two': env.arr('Y', (m, d))} if t else {}))
                return attr(ip, K, nm)
            if t and nm == 'centered':
                continue
            twice('%s of a%s kernel matrix' % (nm, ' two-sample' if t else ''), mk, lambda: mk('q', 'Z'))
    f = lambda q: env.get('operations.' + q)
    Km, Lm = lambda: env.arr('K', (n, n)), lambda: env.arr('L', (n, n))
    for nm, mk in (('center_km', lambda: [Km()]), ('normalize_km', lambda: [Km()]), ('frobenius_norm', lambda: [Km()]), ('frobenius_product', lambda: [Km(), Lm()]),
                   ('alignment_centered', lambda: [Km(), Lm()]), ('linear_combination', lambda: [kset(ck, 2), env.arr('w', (P(2),))])):
        twice(nm, lambda: call(ip, f(nm), *mk()), (lambda: call(ip, f(nm), Lm(), *([Km()] if len(mk()) > 1 else []))) if nm != 'linear_combination' else
              lambda: call(ip, f(nm), kset(ck, 2, names='q'), env.arr('v', (P(2),)), norm_weights=True))
    for cls, ex in (('SumKernel', 0), ('ProductKernel', 0), ('AverageKernel', 0), ('WeightedAverageKernel', 1)):
        def comp(names='k'):
            c = new(env, 'base.' + cls, kset(ck, 2, names=names), *([env.arr('w', (P(2),))] if ex else []))
            meth(ip, c, 'fit')
            return attr(ip, c, 'full')
        twice(cls, comp, lambda: comp('q'))
    twice('ideal_kernel', lambda: call(ip, env.get('sampling.ideal_kernel'), env.arr('y', (n,))), lambda: call(ip, env.get('sampling.ideal_kernel'), env.arr('z', (n,))))
    for me in ('corr', 'align'):
        twice('pairwise_similarity(%s)' % me, lambda: call(ip, env.get('sampling.pairwise_similarity'), kset(ck, 2), metric=me),
              lambda: call(ip, env.get('sampling.pairwise_similarity'), kset(ck, 2, names='q'), metric=me))
    for me in items(env.get('config.VALID_RANKING_METHODS')):
        rk = lambda names='k', t='y': call(ip, env.get('ranking.rank_kernels'), kset(ck, 2, names=names), env.arr(t, (n,)), method=me)
        twice('rank_kernels(%s)' % me, rk, rk)
    for cls in ('KernelMachine', 'KernelMachineRegressor'):
        def fitp(X_='X', kn='k'):
            e = new(env, 'algorithms.' + cls, env.kernel(kn))
            meth(ip, e, 'fit', env.arr(X_, (n, d)), env.arr('y', (n,), I8 if cls == 'KernelMachine' else F8))
            return meth(ip, e, 'predict', env.arr('Y', (m, d)))
        twice(cls, fitp, lambda: fitp('Z', 'q'))

        def apart():
            env.pos()
            lab = I8 if cls == 'KernelMachine' else F8
            e, g = (new(env, 'algorithms.' + cls, env.kernel(q)) for q in ('k', 'q'))
            meth(ip, e, 'fit', env.arr('X', (n, d)), env.arr('y', (n,), lab))
            a = meth(ip, e, 'predict', env.arr('Y', (m, d)))
            meth(ip, g, 'fit', env.arr('Z', (n, d)), env.arr('z', (n,), lab))
            meth(ip, g, 'predict', env.arr('W', (m, d)))
            return (a, meth(ip, e, 'predict', env.arr('Y', (m, d))))
        ck.case('twice: predictions of one %s, with another fitted in between' % cls, apart, Twice(), limit=300)
        twice('parameters of %s()' % cls, lambda: call(ip, attr(ip, new(env, 'algorithms.' + cls), 'k_func'), x(), y()), fitp)


@rule('C23')
def c23(ck):
    from .rules_lint import sources, Mod
    mods = {}
    for name, rel, src in sources(ck.env.root):
        try:
            mods[name] = Mod(name, rel, src)
        except SyntaxError as e:
            raise AnchorLost('%s does not parse: %s' % (rel, e))
    for lab, f in (('every reference to a name outside the package is free of effects', lambda: hermetic(ck, mods)),
                   ('the package and its names can be imported in any order, without scikit-learn', lambda: imports(ck))):
        before = len(ck.viol)
        und = len(ck.undec)
        c = f()
        ck.obl.append((lab, c, c - (len(ck.viol) - before) - (len(ck.undec) - und), 0, len(ck.undec) - und))
    with finite(ck.ip):
        history(ck)


# ---------------------------------------------------------------- C26
PARENT = {'float64': ('float64', 'floating', 'inexact', 'number', 'generic'), 'int64': ('int64', 'signedinteger', 'integer', 'number', 'generic'),
          'bool': ('bool', 'generic')}
REQS = [('number', 'np.number'), ('floating', 'np.floating'), ('inexact', 'np.inexact'), ('integer', 'np.integer'), ('float64', 'float'), ('float64', 'np.float64'),
        ('int64', 'int'), ('int64', 'np.int64'), (None, 'None')]


class HasType(Want):
    """An array of this shape and type, contents aside."""

    def __init__(self, shape, dt):
        self.shape, self.dt = tuple(P(s) for s in shape), dt

    def static(self, ck, o):
        if o.kind != 'ok':
            return False
        if isinstance(o.val, Unk):
            return None
        x = o.val
        if not isinstance(x, Arr):
            return False
        if x.dt.name != self.dt or x.ndim != len(self.shape):
            return False
        return all(same_poly(a, b, o.facts) for a, b in zip(x.shape, self.shape)) or None

    def at(self, ck, o, v):
        if o.kind != 'ok':
            return describe(o)
        if isinstance(o.val, Unk):
            raise Undecided('unknown value')
        x = o.val
        if not isinstance(x, Arr):
            return describe(o)
        if x.dt.name != self.dt:
            return 'an array of type %s' % x.dt.name
        if x.ndim != len(self.shape) or any(v.num(a) != v.num(b) for a, b in zip(x.shape, self.shape)):
            return 'an array of shape (%s)' % ', '.join(show(a) for a in x.shape)

    def __str__(self):
        return 'an array of shape (%s) and type %s' % (', '.join(show(s) for s in self.shape), self.dt)


def cast_to(have, req):
    """Type of the result, or None for ValueError."""
    if req is None or req in PARENT[have]:
        return have
    if req in PARENT:
        return req
    return 'float64' if req in PARENT['float64'] else None


def Entries(shape, f, dt):
    import itertools
    body = ZERO
    for pt in itertools.product(*[range(k) for k in shape]):
        c = True
        for a, k in enumerate(pt):
            c = mk_and(c, mk_eq(I(a) - k))
        body = body + ind(c) * f(*pt)
    return ArrIs(tuple(P(k) for k in shape), body, dt=dt)


@rule('C26')
def c26(ck):
    env, ip = ck.env, ck.ip

    def Scaled(src, shape):
        """(a - min) / (max - min); zeros for constants."""
        a = env.arr(src, shape) if isinstance(src, str) else None
        if a is None:
            body = ZERO
            for k, x in enumerate(src):
                body = body + ind(mk_eq(i - k)) * x
            a = Arr(shape, body, F8)
        lo, hi = (M.poly(M.minmax(ip, a, x)) for x in ('min', 'max'))
        b = body_of(a)
        z = ArrIs(shape, ZERO, dt='float64')
        sc = ArrIs(shape, (b - lo) * power(hi - lo, -1))
        return [(mk_eq(hi - lo), z), (notclose0(hi - lo), Anything()), (True, sc)]
    u = lambda x: env.get('utils.' + x)
    R = Raises('ValueError')
    q = isym('q')

    def idx(nm, *ii):
        return el(nm, *ii)

    def result(nm, shape, pick_, have, req):
        """pick_: index terms of the source for each result axis."""
        t = cast_to(have, req)
        if t is None:
            return R
        if have == 'bool' or (have, t) == ('float64', 'int64'):
            return HasType(shape, t)
        return ArrIs(shape, idx(nm, *pick_), dt=t)

    def arrays(fname, shapes):
        for shape, spec in shapes:
            for dt in (F8, I8, B1):
                for req, src in REQS:
                    def run():
                        env.pos(n, m, q)
                        return call(ip, u(fname), env.arr('a', shape, dt), env.ev(src))
                    ck.case('%s(%s array of shape (%s), %s)' % (fname, dt.name, ', '.join(show(P(s)) for s in shape), src),
                            run, spec(lambda sh, pk: result('a', sh, pk, dt.name, req)))
            ck.case('%s(array of shape (%s))' % (fname, ', '.join(show(P(s)) for s in shape)),
                    lambda: (env.pos(n, m, q), call(ip, u(fname), env.arr('a', shape)))[1],
                    spec(lambda sh, pk: result('a', sh, pk, 'float64', 'number')))
    O, Z = ONE, ZERO
    one = lambda s: mk_eq(s - 1)
    arrays('ensure_ndarray_1D', [
        ((n,), lambda r: r((n,), (i,))),
        ((n, O), lambda r: r((n,), (i, Z))),
        ((n, O, O), lambda r: r((n,), (i, Z, Z))),
        ((O, O), lambda r: r((O,), (i, Z))),
        ((n, m), lambda r: [(one(m), r((n,), (i, Z))), (True, R)]),
        ((O, m), lambda r: [(one(m), r((O,), (i, Z))), (True, R)]),
        ((n, O, m), lambda r: [(one(m), r((n,), (i, Z, Z))), (True, R)]),
        ((n, m, q), lambda r: [(mk_and(one(m), one(q)), r((n,), (i, Z, Z))), (True, R)]),
        ((), lambda r: R)])
    arrays('ensure_ndarray_2D', [
        ((n, m), lambda r: r((n, m), (i, j))),
        ((n, O), lambda r: r((n, O), (i, Z))),
        ((O, m), lambda r: r((O, m), (Z, j))),
        ((O, O), lambda r: r((O, O), (Z, Z))),
        ((n, m, O), lambda r: r((n, m), (i, j, Z))),
        ((O, m, O), lambda r: r((O, m), (Z, j, Z))),
        ((n, m, O, O), lambda r: r((n, m), (i, j, Z, Z))),
        ((n, m, q), lambda r: [(one(q), r((n, m), (i, j, Z))), (True, R)]),
        ((n,), lambda r: R),
        ((O,), lambda r: R),
        ((), lambda r: R)])
    for k in (1, 2, 3):
        full = [(i,), (i, j), (i, j, I(2))]
        for sh in ((n,), (n, m), (n, O), (O, m), (n, m, q), (n, m, O)):
            for dt in (F8, I8):
                for req, src in REQS:
                    ck.case('ensure_ndarray_size(%s array of shape (%s), %s, %d dimensions)' % (dt.name, ', '.join(show(P(s)) for s in sh), src, k),
                            lambda: (env.pos(n, m, q), call(ip, u('ensure_ndarray_size'), env.arr('a', sh, dt), env.ev(src), k))[1],
                            result('a', sh, full[len(sh) - 1], dt.name, req) if len(sh) == k else R)

    # number of columns
    c = isym('c')
    for lab, sh, sp in (('(n, m)', (n, m), ArrIs((n, m), el('a', i, j))), ('(n, m, 1)', (n, m, O), ArrIs((n, m), el('a', i, j, Z)))):
        ck.case('ensure_ndarray_2D(array of shape %s, any number of columns c)' % lab,
                lambda: (env.pos(n, m), call(ip, u('ensure_ndarray_2D'), env.arr('a', sh), ensure_num_cols=isc(c)))[1], [(mk_eq(c - m), sp), (True, R)])
        ck.case('ensure_ndarray_2D(array of shape %s, no number of columns)' % lab,
                lambda: (env.pos(n, m), call(ip, u('ensure_ndarray_2D'), env.arr('a', sh), ensure_num_cols=None))[1], sp)
    ck.case('ensure_ndarray_2D(one row, 0 columns)', lambda: (env.pos(n, m), call(ip, u('ensure_ndarray_2D'), env.arr('a', (n, m)), ensure_num_cols=0))[1], R)

    # lists and tuples
    w = [sym('w%d' % a) for a in range(4)]
    wv = [Sc(x, 'float') for x in w]
    iv = [Sc(isym('v%d' % a), 'int') for a in range(4)]
    for p in (1, 2, 3):
        for lab, mk in (('list', lambda: PList(wv[:p])), ('tuple', lambda: tuple(wv[:p]))):
            ck.case('ensure_ndarray_1D(%s of %d)' % (lab, p), lambda: call(ip, u('ensure_ndarray_1D'), mk()), Entries((p,), lambda a: w[a], 'float64'))
        ck.case('ensure_ndarray_1D(list of %d integers)' % p, lambda: call(ip, u('ensure_ndarray_1D'), PList(iv[:p])), Entries((p,), lambda a: isym('v%d' % a), 'int64'))
        ck.case('ensure_ndarray_1D(list of %d integers as float)' % p, lambda: call(ip, u('ensure_ndarray_1D'), PList(iv[:p]), env.ev('float')),
                Entries((p,), lambda a: isym('v%d' % a), 'float64'))
        ck.case('ensure_ndarray_1D(column of %d)' % p, lambda: call(ip, u('ensure_ndarray_1D'), PList([PList([x]) for x in wv[:p]])), Entries((p,), lambda a: w[a], 'float64'))
        if p > 1:
            ck.case('ensure_ndarray_1D(row of %d)' % p, lambda: call(ip, u('ensure_ndarray_1D'), PList([PList(wv[:p])])), R)
        ck.case('ensure_ndarray_2D(row of %d)' % p, lambda: call(ip, u('ensure_ndarray_2D'), PList([PList(wv[:p])])), Entries((1, p), lambda a, b: w[b], 'float64'))
        ck.case('ensure_ndarray_2D(column of %d)' % p, lambda: call(ip, u('ensure_ndarray_2D'), PList([PList([x]) for x in wv[:p]])), Entries((p, 1), lambda a, b: w[a], 'float64'))
        ck.case('ensure_ndarray_2D(list of %d)' % p, lambda: call(ip, u('ensure_ndarray_2D'), PList(wv[:p])), R)
    ck.case('ensure_ndarray_2D(2 x 2 list)', lambda: call(ip, u('ensure_ndarray_2D'), PList([PList(wv[:2]), PList(wv[2:])])), Entries((2, 2), lambda a, b: w[2 * a + b], 'float64'))
    for src in ('3', '3.5', "'abc'", 'None'):
        ck.case('ensure_ndarray_1D(%s)' % src, lambda: call(ip, u('ensure_ndarray_1D'), env.ev(src)), R)
        ck.case('ensure_ndarray_2D(%s)' % src, lambda: call(ip, u('ensure_ndarray_2D'), env.ev(src)), R)
    for req, src in REQS:
        if req is not None:
            ck.case('ensure_ndarray_1D(words, %s)' % src, lambda: call(ip, u('ensure_ndarray_1D'), PList(['a', 'b']), env.ev(src)), R)

    # pairs of vectors
    for dt in (F8, I8):
        for lab, s1, s2, k1, k2 in (('vectors', (n,), (m,), (i,), (i,)), ('columns', (n, O), (m, O), (i, Z), (i, Z)), ('vector and column', (n,), (m, O), (i,), (i, Z))):
            for req, src in REQS:
                t = cast_to(dt.name, req)
                w_ = R if t is None else Each([('x', result('x', (n,), k1, dt.name, req)), ('y', result('y', (m,), k2, dt.name, req))], 'both vectors, unchanged')
                ck.case('check_input_arrays(%s %s, %s)' % (dt.name, lab, src),
                        lambda: (env.pos(n, m), call(ip, u('check_input_arrays'), env.arr('x', s1, dt), env.arr('y', s2, dt), env.ev(src)))[1],
                        [(mk_eq(n - m), w_), (True, R)])
        ck.case('check_input_arrays(%s matrix, vector)' % dt.name,
                lambda: (env.pos(n, m), ip.assume(mk_le(P(2) - m)), call(ip, u('check_input_arrays'), env.arr('x', (n, m), dt), env.arr('y', (n,), dt)))[2], R)
        ck.case('check_input_arrays(vector, %s matrix)' % dt.name,
                lambda: (env.pos(n, m), ip.assume(mk_le(P(2) - m)), call(ip, u('check_input_arrays'), env.arr('x', (n,), dt), env.arr('y', (n, m), dt)))[2], R)

    # rescaling
    for lab, sh, dt in (('vector', (n,), F8), ('integer vector', (n,), I8), ('matrix', (n, m), F8)):
        with finite(ip):
            ck.case('min_max_scale(%s)' % lab, lambda: (env.pos(n, m), call(ip, u('min_max_scale'), env.arr('a', sh, dt)))[1], Scaled('a', sh))
    for p in (1, 2, 3):
        ck.case('min_max_scale(list of %d)' % p, lambda: call(ip, u('min_max_scale'), PList(wv[:p])), Scaled([x for x in w[:p]], (P(p),)))
        ck.case('min_max_scale(list of %d integers)' % p, lambda: call(ip, u('min_max_scale'), PList(iv[:p])), Scaled([isym('v%d' % a) for a in range(p)], (P(p),)))
        ck.case('min_max_scale(list of %d equal values)' % p, lambda: call(ip, u('min_max_scale'), PList([wv[0]] * p)), ArrIs((P(p),), ZERO, dt='float64'))

    # callables
    T = Raises('TypeError')
    for src in ('3', 'None', "'text'", '[1, 2]', '(1, 2)', '{}', '3.5', 'True'):
        ck.case('check_callable(%s)' % src, lambda: call(ip, u('check_callable'), env.ev(src)), T)
    PARS = ['', 'a', 'a, b', 'a, b, c', 'a, b=1', 'a, b, c=2', 'a, *, b', 'a=0, b=1']
    for ps in PARS:
        np_ = len([x for x in ps.split(',') if x.strip() and x.strip() != '*'])
        for k in (None, 0, 1, 2, 3):
            def run():
                f = env.ev('lambda %s: 0' % ps)
                r = call(ip, u('check_callable'), f, *([] if k is None else [k]))
                return None if isinstance(r, Unk) else '' if r is f else 'another object'
            ck.case('check_callable(lambda %s%s)' % (ps, '' if k is None else ', at least %d' % k), run, T if np_ < (2 if k is None else k) else Holds('the callable itself'))
    for path in ('base.KernelMatrix', 'operations.frobenius_product', 'utils.not_symmetric', 'operations.linear_combination'):
        def run():
            f = env.get(path)
            r = call(ip, u('check_callable'), f)
            return None if isinstance(r, Unk) else '' if r is f else 'another object'
        ck.case('check_callable(%s)' % path, run, T if path == 'utils.not_symmetric' else Holds('the callable itself'))

    for cls in ('LinearKernel', 'PolyKernel'):
        def ker():
            f = new(env, 'numeric_kernels.' + cls)
            r = call(ip, u('check_callable'), f)
            return None if isinstance(r, Unk) else '' if r is f else 'another object'
        ck.case('check_callable(%s object)' % cls, ker, Holds('the callable itself'))

        def ker3():
            return call(ip, u('check_callable'), new(env, 'numeric_kernels.' + cls), 3)
        ck.case('check_callable(%s object, at least 3)' % cls, ker3, T)

    # names of operations
    for op in ('sum', 'product', 'average'):
        for s in (op, op.upper(), op.title(), op[:2] + op[2:].upper(), op.swapcase()):
            ck.case('check_operation_kernel_matrix(%r)' % s, lambda: call(ip, u('check_operation_kernel_matrix'), s), Pred(lambda o: None if isinstance(o.val, Unk) else o.kind == 'ok' and o.val == op, repr(op)))
    for s in ('', 'sums', 'max', 'weighted', 'SUM ', 'prod', 'mean', 'average kernel', 'um'):
        ck.case('check_operation_kernel_matrix(%r)' % s, lambda: call(ip, u('check_operation_kernel_matrix'), s), R)
