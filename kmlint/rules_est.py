"""Rules for the estimators (C14, C15, C21)."""
from .core import *
from . import models as M
from .harness import *
from .registry import rule, call, meth, attr, new
from .extlib import akey
from .models import EXT_INIT
from .rules_ops import el, S, finite, notclose0, pick, centered
from .rules_km import isc, fl
from .rules_set import km, items, with_val, Scores, argmax_proof, BestOf

n, m, d = N, M_, D
i, j = I(0), I(1)
SIZE = {'X': n, 'Y': m, 'Z': n, 'W': isym('s')}
DIM = {'X': d, 'Y': d, 'Z': d, 'W': d}


def row(s, a):
    return ('row', (s,), P(a))


def kfun(k):
    """Kernel value of row a of sample s and row b of sample t."""
    if k == 'linear':
        return lambda s, a, t, b: S([d], lambda q: el(s, a, q) * el(t, b, q))
    return lambda s, a, t, b: kern(k, row(s, a), row(t, b))


def mat(k, s, t, norm):
    """Kernel matrix between samples s (rows) and t (columns)."""
    K = kfun(k)
    b = K(s, i, t, j)
    if norm:
        b = b / sqrt(K(s, i, s, i) * K(t, j, t, j))
    return ArrIs((SIZE[s], SIZE[t]), b)


def ext(o, kind, cls=None):
    return [e.data for e in o.events if e.kind == kind and
            (cls is None or any(c.name.split('.')[-1] in cls for c in e.data[0].cls.mro))]


NORM_ERR = lambda o: o.kind == 'raise' and o.val.cls.name.endswith('KMNormError')


def tolerant(w, norm):
    """With normalization on, a sample that cannot be normalized raises."""
    if not norm:
        return w
    return lambda o: Raises('KMNormError') if NORM_ERR(o) else (w(o) if callable(w) and not isinstance(w, Want) else w)


class Trained(Want):
    """The last fit of the wrapped SVM: class, parameters, matrix, targets, weights."""

    def __init__(self, cls, X, y, sw=None, params=None, which=-1):
        self.cls, self.X, self.y, self.sw, self.params, self.which = cls, X, y, sw, params or {}, which

    def parts(self, o):
        f = ext(o, 'ext-fit', ('SVC', 'SVR'))
        if not f:
            return None
        return f[self.which]

    def plain(self, e):
        """None when fine, text when wrong, Undecided otherwise."""
        obj, rec, X, y, sw, params, extra = e
        if not any(c.name.split('.')[-1] == self.cls for c in obj.cls.mro):
            return 'trains a %s instead of a %s' % (obj.cls.name, self.cls)
        if params.get('kernel') != 'precomputed':
            return 'trains an SVM with kernel %r on a kernel matrix' % (params.get('kernel'),)
        for k, v in self.params.items():
            g = params.get(k)
            if isinstance(g, Unk):
                raise Undecided('unknown parameter')
            a, b = scalar_of(g), scalar_of(v)
            if (a != b) if isinstance(a, Poly) and isinstance(b, Poly) else vkey(g) != vkey(v):
                return 'trains with %s=%s instead of the requested %s' % (k, show_v(g), show_v(v))
        if self.sw is None and sw is not None:
            if isinstance(sw, Unk):
                raise Undecided('unknown weights')
            return 'trains with sample weights that were not given'
        if self.sw is not None and sw is None:
            return 'ignores the sample weights'
        return None

    def wants(self, e):
        yield self.X, e[2], 'the training matrix'
        yield self.y, e[3], 'the targets'
        if self.sw is not None:
            yield self.sw, e[4], 'the sample weights'

    def static(self, ck, o):
        if o.kind != 'ok':
            return False
        e = self.parts(o)
        if e is None or self.plain(e):
            return False
        rs = [w.static(ck, with_val(o, v)) for w, v, _ in self.wants(e)]
        return False if False in rs else None if None in rs else True

    def at(self, ck, o, v):
        if o.kind != 'ok':
            return describe(o)
        e = self.parts(o)
        if e is None:
            return 'no SVM is trained'
        r = self.plain(e)
        if r:
            return r
        for w, x, t in self.wants(e):
            r = w.at(ck, with_val(o, x), v)
            if r:
                return '%s: %s' % (t, r)

    def __str__(self):
        return '%s trained on %s' % (self.cls, self.X)


def show_v(v):
    p = scalar_of(v)
    return show(p) if isinstance(p, Poly) else repr(v)


class Predicted(Want):
    """The outcome is the prediction of the last-trained SVM on the given matrix,
    with the given type."""

    def __init__(self, trained, X, dt):
        self.trained, self.X, self.dt = trained, X, dt

    def parts(self, o):
        if o.kind != 'ok':
            return describe(o)
        f = self.trained.parts(o)
        if f is None:
            return 'no SVM is trained'
        ps = ext(o, 'ext-predict')
        if not ps:
            return 'nothing is predicted by the SVM'
        return f, ps

    def static(self, ck, o):
        x = self.parts(o)
        if isinstance(x, str):
            return False
        f, ps = x
        r = self.trained.static(ck, o)
        if r is not True:
            return r
        pr = ps[-1]
        if pr[1] != f[1]:
            return False
        r = self.X.static(ck, with_val(o, pr[2]))
        if r is not True:
            return r
        return ArrIs(self.X.shape[:1], mk_idx(('pred', f[1], akey(pr[2])), (i,)), dt=self.dt).static(ck, o)

    def at(self, ck, o, v):
        x = self.parts(o)
        if isinstance(x, str):
            return x
        f, ps = x
        r = self.trained.at(ck, o, v)
        if r:
            return r
        pr = ps[-1]
        if pr[1] != f[1]:
            return 'predicts with another model than the one trained last'
        r = self.X.at(ck, with_val(o, pr[2]), v)
        if r:
            return 'prediction matrix: ' + r
        return ArrIs(self.X.shape[:1], mk_idx(('pred', f[1], akey(pr[2])), (i,)), dt=self.dt).at(ck, o, v)

    def __str__(self):
        return 'the prediction (%s) of the trained model on %s' % (self.dt, self.X)


class Both(Want):
    """Several predictions returned together."""

    def __init__(self, wants):
        self.w = wants

    def sub(self, o):
        """Outcomes with the events up to each prediction."""
        if o.kind != 'ok':
            return None
        out, cur = [], []
        import copy
        vals = list(o.val)
        for e in o.events:
            cur.append(e)
            if e.kind == 'ext-predict' and len(out) < len(vals):
                o2 = copy.copy(o)
                o2.events, o2.val = list(cur), vals[len(out)]
                out.append(o2)
        return out if len(out) == len(vals) else None

    def static(self, ck, o):
        s = self.sub(o)
        if s is None:
            return False
        rs = [w.static(ck, x) for w, x in zip(self.w, s)]
        return False if False in rs else None if None in rs else True

    def at(self, ck, o, v):
        s = self.sub(o)
        if s is None:
            return describe(o) if o.kind == 'raise' else 'not one prediction per call'
        for k, (w, x) in enumerate(zip(self.w, s)):
            r = w.at(ck, x, v)
            if r:
                return 'prediction %d: %s' % (k + 1, r)

    def __str__(self):
        return ' / '.join(str(w) for w in self.w)


def arr(env, s, dt=F8):
    return env.arr(s, (SIZE[s], DIM[s]), dt)


MACHINES = (('KernelMachine', 'SVC', False), ('KernelMachineRegressor', 'SVR', True))


@rule('C14')
def c14(ck):
    env, ip = ck.env, ck.ip
    tgt = lambda nm='y', dt=F8, size=n: env.arr(nm, (size,), dt)
    wt = lambda nm='y', size=n: ArrIs((size,), el(nm, i))

    def kernel(k):
        return ip.call(env.get('numeric_kernels.LinearKernel'), [], {}) if k == 'linear' else env.kernel(k)

    def make(cls, k, norm, **kw):
        env.pos(n, m, d, SIZE['W'])
        if norm is not None:
            kw['normalized'] = norm
        return new(env, 'algorithms.' + cls, kernel(k), **kw)

    def group(cls, svm, reg, k, norm):
        tag = '%s(%s, normalized=%s)' % (cls, k, norm)
        odt = lambda dt: 'float64' if reg else dt.name

        def fit(est, s='X', y='y', dt=F8, **kw):
            meth(ip, est, 'fit', arr(env, s), tgt(y, dt, SIZE[s]), **kw)
            return est
        T = lambda s='X', y='y', sw=None, kk=k, nm=norm, cl=svm: Trained(cl, mat(kk, s, s, nm), wt(y, SIZE[s]), sw)
        Pr = lambda t, s, tr='X', dt=F8, kk=k, nm=norm: Predicted(t, mat(kk, s, tr, nm), odt(dt))
        tol = lambda w: tolerant(w, norm)
        for dt in (F8, I8):
            ck.case('%s.fit(%s targets)' % (tag, dt.name), lambda: fit(make(cls, k, norm), dt=dt), tol(T()))
        ck.case('%s.fit(sample weights)' % tag, lambda: fit(make(cls, k, norm), sample_weight=tgt('w')), tol(T(sw=wt('w'))))
        ck.case('%s.fit(positional sample weights)' % tag, lambda: meth(ip, make(cls, k, norm), 'fit', arr(env, 'X'), tgt(), tgt('w')), tol(T(sw=wt('w'))))
        ids = [(svm, svm), (svm.lower(), svm)] + ([] if reg else [('SVM', 'SVC'), ('svm', 'SVC')])
        for lid, cl in ids:
            ck.case('%s, learner %s: fit' % (tag, lid), lambda: fit(make(cls, k, norm, learner_id=lid)), tol(T(cl=cl)))
            ck.case('%s, learner %s: predict' % (tag, lid), lambda: meth(ip, fit(make(cls, k, norm, learner_id=lid)), 'predict', arr(env, 'Y')),
                    tol(Pr(T(cl=cl), 'Y')))
        for dt in (F8, I8):
            ck.case('%s.fit(%s targets), predict' % (tag, dt.name), lambda: meth(ip, fit(make(cls, k, norm), dt=dt), 'predict', arr(env, 'Y')),
                    tol(Pr(T(), 'Y', dt=dt)))
        ck.case('%s.fit, predict on the training sample' % tag, lambda: meth(ip, fit(make(cls, k, norm)), 'predict', arr(env, 'X')), tol(Pr(T(), 'X')))
        ck.case('%s.fit(weights), predict' % tag, lambda: meth(ip, fit(make(cls, k, norm), sample_weight=tgt('w')), 'predict', arr(env, 'Y')), tol(Pr(T(sw=wt('w')), 'Y')))

        # histories
        def history(*ops):
            def run():
                est = make(cls, k, norm)
                out = []
                for op in ops:
                    if op[0] == 'fit':
                        fit(est, *op[1:])
                    elif op[0] == 'predict':
                        out.append(meth(ip, est, 'predict', arr(env, op[1])))
                    elif op[0] == 'bad':
                        try:
                            op[1](est)
                        except PyRaise:
                            pass
                    elif op[0] == 'kernel':
                        meth(ip, est, 'set_params', k_func=kernel(op[1]))
                    elif op[0] == 'norm':
                        meth(ip, est, 'set_params', normalized=op[1])
                    elif op[0] == 'other':
                        evs = ip.st.s['ev']
                        o_ = fit(make(cls, k, norm), 'Z', 'u')
                        if op[1:]:
                            meth(ip, o_, 'predict', arr(env, op[1]))
                        ip.put(ip.st, 'ev', evs)        # what the other machine did
                return tuple(out)
            return run
        t1 = T()
        P_ = lambda s, tr='X', y='y': Pr(T(tr, y), s, tr)
        H = [('predict twice', [('fit', 'X', 'y'), ('predict', 'Y'), ('predict', 'Y')], [P_('Y'), P_('Y')]),
             ('predict on two samples', [('fit', 'X', 'y'), ('predict', 'Y'), ('predict', 'Z'), ('predict', 'Y')], [P_('Y'), P_('Z'), P_('Y')]),
             ('predict on the training sample between', [('fit', 'X', 'y'), ('predict', 'X'), ('predict', 'Y')], [P_('X'), P_('Y')]),
             ('refit', [('fit', 'X', 'y'), ('fit', 'Z', 'u'), ('predict', 'Y')], [P_('Y', 'Z', 'u')]),
             ('refit after predicting', [('fit', 'X', 'y'), ('predict', 'Y'), ('fit', 'Z', 'u'), ('predict', 'Y')], [P_('Y'), P_('Y', 'Z', 'u')]),
             ('refit with new targets', [('fit', 'X', 'y'), ('predict', 'Y'), ('fit', 'X', 'u'), ('predict', 'Y')], [P_('Y'), P_('Y', 'X', 'u')]),
             ('refit on a sample of another size', [('fit', 'X', 'y'), ('predict', 'Y'), ('fit', 'Y', 'u'), ('predict', 'X'), ('predict', 'Y')],
              [P_('Y'), P_('X', 'Y', 'u'), P_('Y', 'Y', 'u')]),
             ('another machine fitted between', [('fit', 'X', 'y'), ('other',), ('predict', 'Y')], [P_('Y')]),
             ('another machine used between', [('fit', 'X', 'y'), ('predict', 'Y'), ('other', 'X'), ('predict', 'Y')], [P_('Y'), P_('Y')]),
             ('rejected predict between', [('fit', 'X', 'y'), ('bad', lambda e: meth(ip, e, 'predict', env.arr('V', (m,)))), ('predict', 'Y')], [P_('Y')]),
             ('rejected predict after another', [('fit', 'X', 'y'), ('predict', 'Z'), ('bad', lambda e: meth(ip, e, 'predict', None)), ('predict', 'Y')],
              [P_('Z'), P_('Y')])]
        for lab, ops, ws in H:
            ck.case('%s: %s' % (tag, lab), history(*ops), tol(Both(ws)))
        if k != 'linear':
            ck.case('%s: set_params(k_func), fit, predict' % tag, history(('kernel', 'q'), ('fit', 'X', 'y'), ('predict', 'Y')),
                    tol(Both([Pr(T(kk='q'), 'Y', kk='q')])))
            ck.case('%s: set_params(normalized), fit, predict' % tag, history(('norm', not norm), ('fit', 'X', 'y'), ('predict', 'Y')),
                    tolerant(Both([Pr(T(nm=not norm), 'Y', nm=not norm)]), not norm))

    def errors(cls, svm, reg):
        for args in ({}, {'normalized': True}):
            ck.case('%s(%s).predict before fit' % (cls, args), lambda: (lambda e: meth(ip, e, 'predict', arr(env, 'Y')))(make(cls, 'k', None, **args)), Raises('NotFittedError'))
        ck.case('%s().predict before fit' % cls, lambda: (env.pos(), meth(ip, new(env, 'algorithms.' + cls), 'predict', arr(env, 'Y')))[1], Raises('NotFittedError'))
        for lid in ('knn', 'tree', ''):
            ck.case('%s(learner %r).fit' % (cls, lid), lambda: meth(ip, make(cls, 'k', None, learner_id=lid), 'fit', arr(env, 'X'), tgt()), Raises('NotImplementedError'))
        ck.case('%s.fit(numbers of samples differ)' % cls, lambda: meth(ip, make(cls, 'k', None), 'fit', arr(env, 'X'), tgt('y', F8, m)),
                [(mk_eq(n - m), Anything()), (True, Raises('ValueError'))])
        ck.case('%s.fit(vector)' % cls, lambda: meth(ip, make(cls, 'k', None), 'fit', env.arr('v', (n,)), tgt()), Raises('ValueError'))
        ck.case('%s.fit, predict(vector)' % cls,
                lambda: (lambda e: (meth(ip, e, 'fit', arr(env, 'X'), tgt()), meth(ip, e, 'predict', env.arr('v', (m,))))[1])(make(cls, 'k', None)), Raises('ValueError'))
        s = SIZE['W']
        ck.case('%s.fit, predict(wrong number of features)' % cls,
                lambda: (lambda e: (meth(ip, e, 'fit', arr(env, 'X'), tgt()), meth(ip, e, 'predict', env.arr('V', (m, s))))[1])(make(cls, 'k', None)),
                [(mk_eq(s - d), Anything()), (True, Raises('Exception'))])

        # default kernel: the Gaussian
        def dflt(pred):
            env.pos()
            e = new(env, 'algorithms.' + cls)
            meth(ip, e, 'fit', arr(env, 'X'), tgt())
            if pred:
                return meth(ip, e, 'predict', arr(env, 'Y'))
            return e

        def ref(s, t):
            def f():
                env.pos()
                o = new(env, 'base.KernelMatrix', ip.call(env.get('numeric_kernels.GaussianKernel'), [], {}), normalized=False)
                meth(ip, o, 'attach_to', arr(env, s), **({} if s == t else {'sample_two': arr(env, t)}))
                return attr(ip, o, 'full')
            outs = [o for o in (ck.explore('reference', f) or ()) if not o.taint]
            if len(outs) != 1 or outs[0].kind != 'ok':
                return None
            a = outs[0].val
            b = body_of(a)
            return ArrIs(a.shape, b) if isinstance(b, Poly) else None
        a, b = ref('X', 'X'), ref('Y', 'X')
        if a and b:
            t = Trained(svm, a, wt())
            ck.case('%s() with the default kernel: fit' % cls, lambda: dflt(False), t)
            ck.case('%s() with the default kernel: predict' % cls, lambda: dflt(True), Predicted(t, b, 'float64'))
    jobs = []
    for cls, svm, reg in MACHINES:
        for k in ('k', 'linear'):
            for norm in (True, False):
                jobs.append(lambda c=cls, s=svm, r=reg, k=k, nm=norm: group(c, s, r, k, nm))
        jobs.append(lambda c=cls, s=svm, r=reg: errors(c, s, r))
    with finite(ip):
        ck.fork(jobs)


class OptTrained(Want):
    """The last fit of the estimator itself: a precomputed-kernel SVM with the
    user's parameters on the training matrix of a best-ranked kernel."""

    def __init__(self, cls, mats, y, sw=None, params=None, cv=None, best=None):
        self.cls, self.mats, self.y, self.sw = cls, mats, y, sw
        self.t = Trained(cls, None, y, sw, params)
        self.cv = cv                # Scores of a cross-validated ranking
        self.best = best            # [(condition, Want)] of another ranking

    def parts(self, o):
        fits = [k for k, e in enumerate(o.events) if e.kind == 'ext-fit' and
                any(c.name.split('.')[-1] in ('SVC', 'SVR') for c in e.data[0].cls.mro)]
        if not fits:
            return None
        a = fits[-2] + 1 if len(fits) > 1 else 0
        return o.events[fits[-1]].data, o.events[a:fits[-1]]

    def ranking(self, o, evs, p):
        import copy
        o2 = copy.copy(o)
        o2.events, o2.val = evs, (p,)
        return o2

    def which(self, ck, o, X, v=None):
        """Positions of the kernels whose training matrix is X."""
        if v is None:
            return [p for p, w in enumerate(self.mats) if w.static(ck, with_val(o, X)) is True]
        return [p for p, w in enumerate(self.mats) if w.at(ck, with_val(o, X), v) is None]

    def static(self, ck, o):
        if o.kind != 'ok':
            return False
        x = self.parts(o)
        if x is None:
            return False
        e, evs = x
        if self.t.plain(e):
            return False
        rs = [w.static(ck, with_val(o, y)) for w, y in ((self.y, e[3]), (self.sw, e[4])) if w is not None]
        if False in rs:
            return False
        ps = self.which(ck, o, e[2])
        if not ps or None in rs:
            return None
        for p in ps:
            o2 = self.ranking(o, evs, p)
            if self.cv is not None:
                if self.cv.static(ck, o2) is True:
                    return True
            else:
                for c, w in self.best:
                    r = o.facts.decide(c) if c is not True else True
                    if r is False:
                        continue
                    if r is None:
                        break
                    if w.static(ck, o2) is True:
                        return True
                    break
        return None

    def at(self, ck, o, v):
        if o.kind != 'ok':
            return describe(o)
        x = self.parts(o)
        if x is None:
            return 'no SVM is trained'
        e, evs = x
        r = self.t.plain(e)
        if r:
            return r
        for w, y, t in ((self.y, e[3], 'the targets'), (self.sw, e[4], 'the sample weights')):
            if w is not None:
                r = w.at(ck, with_val(o, y), v)
                if r:
                    return '%s: %s' % (t, r)
        ps = self.which(ck, o, e[2], v)
        if not ps:
            return 'the training matrix is not that of a kernel of the bucket on the training sample (%s)' % \
                self.mats[0].at(ck, with_val(o, e[2]), v)
        err = None
        for p in ps:
            o2 = self.ranking(o, evs, p)
            if self.cv is not None:
                err = self.cv.at(ck, o2, v)
            else:
                for c, w in self.best:
                    if c is True or v.c(c):
                        err = w.at(ck, o2, v)
                        break
            if err is None:
                return None
        return 'the kernel trained on is not the best-ranked: ' + err

    def __str__(self):
        return '%s trained on the matrix of the best-ranked kernel' % self.cls


class OptPredicted(Want):
    def __init__(self, trained, test, dt):
        self.trained, self.test, self.dt = trained, test, dt

    def parts(self, o):
        if o.kind != 'ok':
            return describe(o)
        x = self.trained.parts(o)
        if x is None:
            return 'no SVM is trained'
        ps = ext(o, 'ext-predict')
        if not ps:
            return 'nothing is predicted by the SVM'
        if ps[-1][1] != x[0][1]:
            return 'predicts with another model than the one trained last'
        return x[0], ps[-1]

    def res(self, f, pr):
        return ArrIs(self.test[0].shape[:1], mk_idx(('pred', f[1], akey(pr[2])), (i,)), dt=self.dt)

    def static(self, ck, o):
        x = self.parts(o)
        if isinstance(x, str):
            return False
        f, pr = x
        r = self.trained.static(ck, o)
        if r is not True:
            return r
        ps = self.trained.which(ck, o, f[2])
        if not all(self.test[p].static(ck, with_val(o, pr[2])) is True for p in ps[:1]):
            return None
        return self.res(f, pr).static(ck, o)

    def at(self, ck, o, v):
        x = self.parts(o)
        if isinstance(x, str):
            return x
        f, pr = x
        r = self.trained.at(ck, o, v)
        if r:
            return r
        ps = self.trained.which(ck, o, f[2], v)
        rs = [self.test[p].at(ck, with_val(o, pr[2]), v) for p in ps]
        if all(rs):
            return 'prediction matrix of the kernel trained on: ' + rs[0]
        return self.res(f, pr).at(ck, o, v)

    def __str__(self):
        return 'the prediction (%s) of the trained model on the test-by-train matrix of its kernel' % self.dt


OPTS = (('OptimalKernelSVC', 'SVC', False), ('OptimalKernelSVR', 'SVR', True))


@rule('C15')
def c15(ck):
    env, ip = ck.env, ck.ip
    methods = items(env.get('config.VALID_RANKING_METHODS'))
    strategies = items(env.get('config.kernel_bucket_strategies'))
    CV = lambda me: me.lower() in ('cv_risk', 'cv')
    tgt = lambda nm='y', dt=I8, size=n: env.arr(nm, (size,), dt)
    wt = lambda nm='y', size=n: ArrIs((size,), el(nm, i))

    def bucket(kinds, norm=False):
        b = new(env, 'sampling.KernelBucket', poly_degree_values=None, rbf_sigma_values=None, laplace_gamma_values=None,
                sigmoid_gamma_values=None, sigmoid_offset_values=None, normalize_kernels=norm)
        for k in kinds:
            meth(ip, b, 'append', km(ck, k, None, norm=norm))
        env.pos(n, m, d, SIZE['W'])
        return b

    def align(K, s, y):
        N_ = SIZE[s]
        T_ = lambda a, b: el(y, a) * el(y, b)
        c1 = lambda a, b: centered(K, N_, a, b)
        c2 = lambda a, b: centered(T_, N_, a, b)
        n1 = sqrt(S([N_, N_], lambda p, q: c1(p, q) * c1(p, q)))
        n2 = sqrt(S([N_, N_], lambda p, q: c2(p, q) * c2(p, q)))
        return S([N_, N_], lambda p, q: c1(p, q) * c2(p, q)) / (n1 * n2), mk_or(notclose0(n1), notclose0(n2))

    def trained(svm, kinds, me, norm, s='X', y='y', sw=None, params=None):
        ks = ['linear'] + kinds
        mats = [mat(k, s, s, norm) for k in ks]
        if CV(me):
            return OptTrained(svm, mats, wt(y, SIZE[s]), sw, params, cv=Scores(mats, wt(y, SIZE[s]), svm, None, True))
        out, anyz = [], False
        for k in ks:
            K = kfun(k)
            v, z = align((lambda a, b: K(s, a, s, b) / sqrt(K(s, a, s, a) * K(s, b, s, b))) if norm else (lambda a, b: K(s, a, s, b)), s, y)
            anyz = mk_or(anyz, z)
            out.append(ind(mk_not(z)) * v)
        return OptTrained(svm, mats, wt(y, SIZE[s]), sw, params, best=[(mk_not(anyz), BestOf(out)), (True, Returns())])

    def pred(t, kinds, norm, s, tr, reg):
        return OptPredicted(t, [mat(k, s, tr, norm) for k in ['linear'] + kinds], 'float64' if reg else 'int64')

    C, tl, eps = sym('C'), sym('tol'), sym('eps')

    def args(reg, **kw):
        a = dict(C=Sc(C, 'float'), tol=Sc(tl, 'float'), shrinking=False)
        if reg:
            a['epsilon'] = Sc(eps, 'float')
        a.update(kw)
        return a

    def make(cls, b, me, **kw):
        if me is not None:
            kw['method'] = me
        return new(env, 'algorithms.' + cls, b, **kw)

    def group(cls, svm, reg, kinds, me, norm):
        tag = '%s(%d kernels, method=%r, normalized=%s)' % (cls, len(kinds) + 1, me, norm)
        tol = lambda w: tolerant(w, norm)
        LIM = 1500 if not CV(me) else None
        Tr = lambda s='X', y='y', **kw: trained(svm, kinds, me, norm, s, y, **kw)
        Pr = lambda s, tr='X', y='y', **kw: pred(Tr(tr, y, **kw), kinds, norm, s, tr, reg)

        def fit(e, s='X', y='y', **kw):
            meth(ip, e, 'fit', arr(env, s), tgt(y, I8, SIZE[s]), **kw)
            return e
        P_ = args(reg)
        ck.case('%s: fit' % tag, lambda: fit(make(cls, bucket(kinds, norm), me, **P_)), tol(Tr(params=P_)), limit=LIM)
        ck.case('%s: fit, predict' % tag, lambda: meth(ip, fit(make(cls, bucket(kinds, norm), me, **P_)), 'predict', arr(env, 'Y')),
                tol(Pr('Y', params=P_)), limit=LIM)
        if not CV(me) and (len(kinds) > 1 or norm):
            return
        ck.case('%s: fit(sample weights)' % tag, lambda: fit(make(cls, bucket(kinds, norm), me), sample_weight=tgt('w', F8)), tol(Tr(sw=wt('w'))), limit=LIM)

        def history(*ops):
            def run():
                b = bucket(kinds, norm)
                e = make(cls, b, me)
                out = []
                for op in ops:
                    if op[0] == 'fit':
                        fit(e, *op[1:])
                    elif op[0] == 'predict':
                        out.append(meth(ip, e, 'predict', arr(env, op[1])))
                    elif op[0] == 'attach':
                        meth(ip, b, 'attach_to', arr(env, op[1]))
                    elif op[0] == 'other':
                        o2 = make(cls, b, me)
                        fit(o2, *op[1:])
                        meth(ip, o2, 'predict', arr(env, 'W'))
                    elif op[0] == 'set':
                        meth(ip, e, 'set_params', **op[1])
                    elif op[0] == 'bad':
                        try:
                            meth(ip, e, 'predict', op[1])
                        except PyRaise:
                            pass
                return tuple(out)
            return run
        H = [('predict twice', [('fit',), ('predict', 'Y'), ('predict', 'Y')], lambda: [Pr('Y'), Pr('Y')]),
             ('predict on two samples', [('fit',), ('predict', 'Y'), ('predict', 'W'), ('predict', 'Y')], lambda: [Pr('Y'), Pr('W'), Pr('Y')]),
             ('predict on the training sample', [('fit',), ('predict', 'X'), ('predict', 'Y')], lambda: [Pr('X'), Pr('Y')]),
             ('rejected predict between', [('fit',), ('bad', None), ('predict', 'Y')], lambda: [Pr('Y')]),
             ('refit', [('fit',), ('fit', 'Y', 'u'), ('predict', 'W')], lambda: [Pr('W', 'Y', 'u')]),
             ('refit after predicting', [('fit',), ('predict', 'Y'), ('fit', 'Z', 'u'), ('predict', 'Y')], lambda: [Pr('Y'), Pr('Y', 'Z', 'u')]),
             ('bucket attached before', [('attach', 'Z'), ('fit',), ('predict', 'Y')], lambda: [Pr('Y')]),
             ('bucket attached between', [('fit',), ('attach', 'Z'), ('predict', 'Y')], lambda: [Pr('Y')]),
             ('set_params', [('set', P_), ('fit',), ('predict', 'Y')], lambda: [Pr('Y', params=P_)])]
        for k, (lab, ops, ws) in enumerate(H):
            if ck.tier == 'quick':
                # the refits multiply the paths of two rankings
                if lab.startswith('refit') and (norm and len(kinds) > 1 or not CV(me)):
                    continue
                if not CV(me) and k not in (1, 8):
                    continue
                if norm and len(kinds) > 1 and k not in (1, 8):
                    continue
            ck.case('%s: %s' % (tag, lab), history(*ops), tol(Both(ws())), limit=LIM)

        # the user's bucket
        def kept(before):
            def run():
                b = bucket(kinds, norm)
                if before:
                    meth(ip, b, 'attach_to', arr(env, 'Z'))
                    if before == 'used':
                        for x in items(env.ev('list(b)', b=b)):
                            attr(ip, x, 'full')
                e = fit(make(cls, b, me))
                if before != 'fitted only':
                    meth(ip, e, 'predict', arr(env, 'Y'))
                ms = items(env.ev('list(b)', b=b))
                out = [isinstance(attr(ip, e, 'k_bucket'), Obj) and attr(ip, e, 'k_bucket') is b]
                for x in ms:
                    try:
                        out.append(attr(ip, x, 'full'))
                    except PyRaise as ex:
                        out.append(ex.exc.cls.name.split('.')[-1])
                return tuple(out)
            return run

        class Kept(Want):
            def __init__(self, before):
                self.b = before

            def each(self, o):
                if o.kind != 'ok':
                    return describe(o)
                if o.val[0] is not True:
                    return 'the k_bucket parameter is no longer the given bucket'
                if len(o.val) != 2 + len(kinds):
                    return 'the bucket has %d members instead of %d' % (len(o.val) - 1, 1 + len(kinds))
                if not self.b or self.b == 'fitted only':
                    for k, x in enumerate(o.val[1:]):
                        if self.b is None or True:
                            if not isinstance(x, str):
                                return 'member %d of the given bucket became attached to a sample' % k
                    return None
                for k, x in enumerate(o.val[1:]):
                    if isinstance(x, str):
                        return 'the full matrix of member %d of the given bucket raises %s' % (k, x)
                return None

            def static(self, ck_, o):
                if self.each(o):
                    return False
                if not self.b or self.b == 'fitted only':
                    return True
                rs = [mat(k, 'Z', 'Z', norm).static(ck_, with_val(o, x)) for k, x in zip(['linear'] + kinds, o.val[1:])]
                return False if False in rs else None if None in rs else True

            def at(self, ck_, o, v):
                r = self.each(o)
                if r or not self.b or self.b == 'fitted only':
                    return r
                for k, x in zip(['linear'] + kinds, o.val[1:]):
                    r = mat(k, 'Z', 'Z', norm).at(ck_, with_val(o, x), v)
                    if r:
                        return 'member %s of the given bucket: %s' % (k, r)

            def __str__(self):
                return 'the given bucket as it was before fitting'
        for bf in (None, 'yes', 'used') if CV(me) else (None,):
            if bf and norm:
                continue
            ck.case('%s: given bucket afterwards (%s before)' % (tag, {None: 'unattached', 'yes': 'attached', 'used': 'used'}[bf]), kept(bf), tol(Kept(bf)), limit=LIM)
        if CV(me) and not norm and len(kinds) == 1:
            # default hyper-parameters are those of the SVM
            D_ = {'C': 1, 'tol': Sc(P(1) / P(1000), 'float'), 'shrinking': True, 'epsilon': Sc(P(1) / P(10), 'float')}
            ck.case('%s: default parameters' % tag, lambda: fit(make(cls, bucket(kinds, norm), me)),
                    tol(Tr(params={k: D_[k] for k in ('C', 'tol', 'shrinking') + (('epsilon',) if reg else ())})), limit=LIM)
            for P2 in ({'C': Sc(C, 'float')}, {'tol': Sc(tl, 'float')}, {'shrinking': False}) + (({'epsilon': Sc(eps, 'float')},) if reg else ()):
                want = {k: D_[k] for k in ('C', 'tol', 'shrinking') + (('epsilon',) if reg else ())}
                want.update(P2)
                ck.case('%s: only %s given' % (tag, list(P2)[0]), lambda: fit(make(cls, bucket(kinds, norm), me, **P2)), tol(Tr(params=want)), limit=LIM)
                ck.case('%s: only %s set' % (tag, list(P2)[0]),
                        lambda: (lambda e: (fit(e), meth(ip, e, 'set_params', **P2), fit(e))[2])(make(cls, bucket(kinds, norm), me)), tol(Tr(params=want)), limit=LIM)

    def methods_set(cls, svm, reg):
        kinds = ['k1']
        for a in methods:
            for b in methods:
                if a == b or not CV(b):
                    continue
                def run():
                    e = make(cls, bucket(kinds), a)
                    meth(ip, e, 'set_params', method=b)
                    meth(ip, e, 'fit', arr(env, 'X'), tgt())
                    return e
                ck.case('%s: method %r changed to %r' % (cls, a, b), run, trained(svm, kinds, b, False))
        # a bucket set later
        def run2():
            e = make(cls, bucket([]), 'cv_risk')
            meth(ip, e, 'set_params', k_bucket=bucket(['k1', 'k2']))
            meth(ip, e, 'fit', arr(env, 'X'), tgt())
            return meth(ip, e, 'predict', arr(env, 'Y'))
        ck.case('%s: bucket set later' % cls, run2, pred(trained(svm, ['k1', 'k2'], 'cv_risk', False), ['k1', 'k2'], False, 'Y', 'X', reg))

        def run3():
            e = make(cls, 'linear_only', 'cv_risk')
            meth(ip, e, 'fit', arr(env, 'X'), tgt())
            meth(ip, e, 'set_params', k_bucket=bucket(['k1', 'k2']))
            meth(ip, e, 'fit', arr(env, 'X'), tgt())
            return meth(ip, e, 'predict', arr(env, 'Y'))
        w = pred(trained(svm, ['k1', 'k2'], 'cv_risk', False), ['k1', 'k2'], False, 'Y', 'X', reg)
        ck.case('%s: bucket replaced after fitting with a strategy' % cls, run3, tolerant(w, True))

    def strategy_cases(cls, svm, reg):
        for st in strategies + [x.upper() for x in strategies[:1]]:
            for me in methods:
                def run():
                    env.pos()
                    e = make(cls, st, me)
                    meth(ip, e, 'fit', arr(env, 'X'), tgt())
                    return meth(ip, e, 'predict', arr(env, 'Y'))
                if st.lower() == 'linear_only':
                    ck.case('%s(%r, method=%r): fit, predict' % (cls, st, me), run, tolerant(pred(trained(svm, [], me, True), [], True, 'Y', 'X', reg), True), limit=600)
                    ck.case('%s(%r, method=%r): parameter kept' % (cls, st, me),
                            lambda: (lambda e: (meth(ip, e, 'fit', arr(env, 'X'), tgt()), attr(ip, e, 'k_bucket'))[1])(make(cls, st, me)),
                            lambda o: Raises('KMNormError') if NORM_ERR(o) else Pred(lambda o: o.kind == 'ok' and o.val == st, 'the strategy name'), limit=600)

    def large_strategy(cls, svm, reg, st):
        """Every kernel of the strategy is cross-validated once and the model is
        trained on a matrix with the highest score."""
        def count():
            return M.length(ip, new(env, 'sampling.make_kernel_bucket', st))
        outs = [o for o in (ck.explore('number of kernels of %s' % st, count) or ()) if o.kind == 'ok']
        if len(outs) != 1 or not isinstance(scalar_of(outs[0].val), Poly):
            return
        num_k = scalar_of(outs[0].val).const()

        class Ranked(Want):
            def look(self, o):
                if o.kind != 'ok':
                    return describe(o)
                gs = [e.data for e in o.events if e.kind == 'ext-fit' and e.data[0].cls.name.endswith('GridSearchCV')]
                sv = [e.data for e in o.events if e.kind == 'ext-fit' and not e.data[0].cls.name.endswith('GridSearchCV')]
                if len(gs) != num_k:
                    return '%d kernels are cross-validated although the strategy has %s' % (len(gs), num_k)
                if len(sv) != 1:
                    return '%d models are trained' % len(sv)
                r = Trained(svm, None, None).plain(sv[0])
                if r:
                    return r
                ps = [k for k, g in enumerate(gs) if akey(g[2]) == akey(sv[0][2])]
                if not ps:
                    raise Undecided('matrix of the trained model')
                return gs, ps

            def static(self, ck_, o):
                x = self.look(o)
                if isinstance(x, str):
                    return False
                gs, ps = x
                sc = Scores([None] * len(gs), None, svm)
                s_ = [sc.score(g) for g in gs]
                if o.facts.decide(notclose0(fn('max', *s_) - fn('min', *s_))) is True:
                    return True
                for p in ps:
                    o2 = with_val(o, (p,))
                    if argmax_proof(o2, sc.scaled(s_)) or argmax_proof(o2, s_):
                        return True
                return None

            def at(self, ck_, o, v):
                x = self.look(o)
                if isinstance(x, str):
                    return x
                gs, ps = x
                s_ = [v.num(Scores([], None, svm).score(g)) for g in gs]
                if all(s_[p] < max(s_) - 1e-7 for p in ps):
                    return 'trains on kernel %d of score %s, the highest is %s' % (ps[0], num(s_[ps[0]]), num(max(s_)))

            def __str__(self):
                return 'a model trained on the best of the %s kernels of the strategy' % num_k

        def run():
            env.pos()
            e = make(cls, st, 'cv_risk')
            meth(ip, e, 'fit', arr(env, 'X'), tgt())
            return e
        ck.secs = 150
        ck.case('%s(%r): fit' % (cls, st), run, lambda o: Raises('KMNormError') if NORM_ERR(o) else Ranked(), limit=600)
        ck.secs = None

    def errors(cls, svm, reg):
        for lab, kw in (('default', {}), ('linear_only', {'k_bucket': 'linear_only'})):
            ck.case('%s(%s).predict before fit' % (cls, lab), lambda: (env.pos(), meth(ip, new(env, 'algorithms.' + cls, **kw), 'predict', arr(env, 'Y')))[1], Raises('NotFittedError'))
        ck.case('%s(bucket).predict before fit' % cls, lambda: meth(ip, make(cls, bucket(['k1']), None), 'predict', arr(env, 'Y')), Raises('NotFittedError'))
        ck.case('%s(attached bucket).predict before fit' % cls,
                lambda: (lambda b: (meth(ip, b, 'attach_to', arr(env, 'X')), meth(ip, make(cls, b, None), 'predict', arr(env, 'Y')))[1])(bucket(['k1'])), Raises('NotFittedError'))
        bad = [('unknown strategy', lambda: 'everything'), ('empty string', lambda: ''), ('strategy with a blank', lambda: 'light '), ('None', lambda: None),
               ('kernel set', lambda: kset_(2)), ('list of kernel matrices', lambda: PList([km(ck, 'k0', None), km(ck, 'k1', None)])),
               ('kernel matrix', lambda: km(ck, 'k0', None)), ('kernel', lambda: env.kernel('k')), ('number', lambda: 3), ('list of names', lambda: PList(['light'])),
               ('bucket class', lambda: env.get('sampling.KernelBucket')), ('array', lambda: env.arr('K', (n, n)))]

        def kset_(p):
            s = new(env, 'base.KernelSet', num_samples=None)
            for a in range(p):
                meth(ip, s, 'append', km(ck, 'k%d' % a, None))
            return s
        for lab, b in bad:
            for me in methods:
                ck.case('%s(%s, method=%r).fit' % (cls, lab, me), lambda: (env.pos(), meth(ip, make(cls, b(), me), 'fit', arr(env, 'X'), tgt()))[1], Raises('ValueError'))
        ck.case('%s.fit(numbers of samples differ)' % cls, lambda: meth(ip, make(cls, bucket(['k1']), None), 'fit', arr(env, 'X'), tgt('y', I8, m)),
                [(mk_eq(n - m), Anything()), (True, Raises('ValueError'))])
        ck.case('%s.fit(vector)' % cls, lambda: meth(ip, make(cls, bucket(['k1']), None), 'fit', env.arr('v', (n,)), tgt()), Raises('ValueError'))
        s = SIZE['W']
        ck.case('%s.fit, predict(wrong number of features)' % cls,
                lambda: (lambda e: (meth(ip, e, 'fit', arr(env, 'X'), tgt()), meth(ip, e, 'predict', env.arr('V', (m, s))))[1])(make(cls, bucket(['k1']), None)),
                [(mk_eq(s - d), Anything()), (True, Raises('Exception'))])
        ck.case('%s.fit, predict(vector)' % cls,
                lambda: (lambda e: (meth(ip, e, 'fit', arr(env, 'X'), tgt()), meth(ip, e, 'predict', env.arr('v', (m,))))[1])(make(cls, bucket(['k1']), None)), Raises('ValueError'))
    jobs = []
    for cls, svm, reg in OPTS:
        for me in methods:
            for kinds in (['k1'], ['k1', 'k2']):
                for norm in (False, True):
                    if norm and not CV(me):
                        continue
                    jobs.append(lambda c=cls, s=svm, r=reg, k=kinds, me=me, nm=norm: group(c, s, r, k, me, nm))
        jobs.append(lambda c=cls, s=svm, r=reg: errors(c, s, r))
        jobs.append(lambda c=cls, s=svm, r=reg: methods_set(c, s, r))
        jobs.append(lambda c=cls, s=svm, r=reg: strategy_cases(c, s, r))
        for st in strategies:
            if st == 'light' or st == 'exhaustive' and ck.tier != 'quick':
                jobs.insert(0, lambda c=cls, s=svm, r=reg, st=st: large_strategy(c, s, r, st))
    with finite(ip):
        ck.fork(jobs)


ESTIMATORS = {
    'KernelMachine': (['k_func', 'learner_id', 'normalized'], 'c'),
    'KernelMachineRegressor': (['k_func', 'learner_id', 'normalized'], 'r'),
    'OptimalKernelSVC': (['k_bucket', 'method', 'C', 'shrinking', 'tol'], 'c'),
    'OptimalKernelSVR': (['k_bucket', 'method', 'C', 'epsilon', 'shrinking', 'tol'], 'r')}


@rule('C21')
def c21(ck):
    from .extlib import sk_is_classifier, sk_is_regressor, sk_clone, init_param_names
    env, ip = ck.env, ck.ip
    tgt = lambda: env.arr('y', (n,), I8)

    def bucket():
        return new(env, 'sampling.KernelBucket', poly_degree_values=None, rbf_sigma_values=None, laplace_gamma_values=None,
                   sigmoid_gamma_values=None, sigmoid_offset_values=None, normalize_kernels=False)

    def values(which):
        """Two settings of every parameter; symbolic where the type allows."""
        f = lambda k: Sc(sym('%s%d' % (k, which)), 'float')
        if which == 2:
            return {'k_func': lambda: env.kernel('k'), 'learner_id': lambda: 'svm', 'normalized': lambda: True, 'k_bucket': lambda: 'LIGHT',
                    'method': lambda: 'CV_Risk', 'C': lambda: isc(sym('C2', 'int')), 'epsilon': lambda: 0, 'shrinking': lambda: 0, 'tol': lambda: isc(sym('tol2', 'int'))}
        return {'k_func': lambda: env.kernel('k%d' % which), 'learner_id': lambda: ('SVC', 'SVR')[which], 'normalized': lambda: bool(which),
                'k_bucket': lambda: bucket() if which else 'linear_only', 'method': lambda: ('cv_risk', 'align/corr')[which], 'C': lambda: f('C'),
                'epsilon': lambda: f('epsilon'), 'shrinking': lambda: bool(1 - which), 'tol': lambda: f('tol')}

    def same(a, b):
        if a is b:
            return True
        if isinstance(a, Unk) or isinstance(b, Unk):
            return None
        if isinstance(a, Obj) or isinstance(b, Obj):
            return False
        p, q = scalar_of(a), scalar_of(b)
        if isinstance(p, Poly) and isinstance(q, Poly) and not isinstance(a, bool) and not isinstance(b, bool):
            return p == q
        return vkey(a) == vkey(b)

    def both(pairs):
        """Verdict over (what, got, wanted)."""
        r = [(w, same(g, x)) for w, g, x in pairs]
        bad = [w for w, x in r if x is False]
        return bad, any(x is None for _, x in r)

    def table(pd):
        if isinstance(pd, PDict):
            c = pd.concrete()
            return dict(c) if c is not None else None
        return None if isinstance(pd, Unk) else {}

    class All(Want):
        """Result is a list of (what, got, wanted) that must agree."""

        def __init__(self, text):
            self.t = text

        def look(self, o):
            if o.kind != 'ok':
                return [describe(o)], False
            if o.val is None:
                return [], True
            return both(o.val)

        def static(self, ck_, o):
            bad, u = self.look(o)
            return False if bad else None if u else True

        def at(self, ck_, o, v):
            bad, u = self.look(o)
            if bad:
                return 'wrong: ' + ', '.join(map(str, bad))
            if u:
                raise Undecided('unknown value')

        def __str__(self):
            return self.t

    def params_of(e, names, want, deep=None):
        t = table(meth(ip, e, 'get_params') if deep is None else meth(ip, e, 'get_params', deep=deep) if deep != 'pos' else meth(ip, e, 'get_params', False))
        if t is None:
            return None
        out = [('keys of get_params %s' % sorted(t), tuple(sorted(t)), tuple(sorted(names)))]
        for p in names:
            if p in t:
                out.append(('get_params()[%r]' % p, t[p], want[p]))
            out.append(('attribute %s' % p, attr(ip, e, p), want[p]))
        return tuple(out)

    def group(cls):
        names, ty = ESTIMATORS[cls]
        env.get('algorithms.' + cls)
        V = [values(0), values(1), values(2)]
        mk = lambda w: new(env, 'algorithms.' + cls, **w)
        val = lambda w, ns=None: {p: V[w][p]() for p in (ns or names)}

        def fit(e):
            env.pos()
            meth(ip, e, 'fit', arr(env, 'X'), tgt())
            return e
        # parameters of the constructor
        ck.case('%s: constructor parameters' % cls, lambda: (('parameters', tuple(sorted(init_param_names(ip, env.get('algorithms.' + cls)))), tuple(sorted(names))),),
                All('the documented parameters'))

        for w in (0, 1, 2):
            for lab, deep in (('', None), (', deep=False', False), (', deep=True', True), (', positional', 'pos')):
                def run():
                    x = val(w)
                    return params_of(mk(x), names, x, deep)
                ck.case('%s(setting %d): get_params(%s)' % (cls, w, lab), run, All('every parameter as given'))

            def rebuilt():
                x = val(w)
                e = mk(x)
                t = table(meth(ip, e, 'get_params'))
                return None if t is None else params_of(new(env, 'algorithms.' + cls, **t), names, x)
            if w == 2:
                ck.case('%s: set_params(unusual spellings)' % cls, lambda: (lambda x, e: (meth(ip, e, 'set_params', **x), params_of(e, names, x))[1])(val(2), mk(val(0))), All('every parameter as given'))
            ck.case('%s(setting %d): rebuilt from its parameters' % (cls, w), rebuilt, All('identical parameters'))

            def cloned():
                x = val(w)
                e = mk(x)
                c = sk_clone(ip, e, True)
                if not isinstance(c, Obj):
                    return None
                out = [('class', c.cls.name, e.cls.name), ('another object', c is e, False)]
                for p in names:
                    g = attr(ip, c, p)
                    if isinstance(x[p], Obj):
                        out.append((p, g.cls.name if isinstance(g, Obj) else g, x[p].cls.name))
                    else:
                        out.append((p, g, x[p]))
                return tuple(out)
            ck.case('%s(setting %d): cloned' % (cls, w), cloned, All('identical parameters'))
            if w == 2:
                break
            for p in names:
                def one():
                    v = V[w][p]()
                    e = new(env, 'algorithms.' + cls, **{p: v})
                    t = table(meth(ip, e, 'get_params'))
                    d0 = new(env, 'algorithms.' + cls)
                    out = [('attribute %s' % p, attr(ip, e, p), v)]
                    if t is not None:
                        out.append(('get_params()[%r]' % p, t.get(p, '(missing)'), v))
                    for q in names:
                        if q != p and q != 'k_func':
                            out.append(('attribute %s' % q, attr(ip, e, q), attr(ip, d0, q)))
                    return tuple(out)
                ck.case('%s(only %s, setting %d)' % (cls, p, w), one, All('that parameter as given, the others default'))

                def setone(others, twice=False):
                    def run():
                        x = val(others)
                        e = mk(x)
                        if twice:
                            meth(ip, e, 'set_params', **{p: V[1 - w][p]()})
                        v = V[w][p]()
                        r = meth(ip, e, 'set_params', **{p: v})
                        x[p] = v
                        t = params_of(e, names, x)
                        return None if t is None else t + (('returned object', r is e, True),)
                    return run
                for o_ in (0, 1):
                    ck.case('%s(setting %d): set_params(%s, setting %d)' % (cls, o_, p, w), setone(o_), All('that parameter replaced, the others kept, the estimator returned'))
                ck.case('%s: set_params(%s) twice, setting %d' % (cls, p, w), setone(0, True), All('that parameter replaced, the others kept, the estimator returned'))
                for q in names:
                    if q <= p:
                        continue

                    def pair():
                        x = val(1 - w)
                        e = mk(x)
                        a, b = V[w][p](), V[w][q]()
                        r = meth(ip, e, 'set_params', **{p: a, q: b})
                        x[p], x[q] = a, b
                        t = params_of(e, names, x)
                        return None if t is None else t + (('returned object', r is e, True),)
                    ck.case('%s: set_params(%s, %s), setting %d' % (cls, p, q, w), pair, All('both replaced, the others kept, the estimator returned'))

            def setall():
                e = mk(val(1 - w))
                x = val(w)
                r = meth(ip, e, 'set_params', **x)
                t = params_of(e, names, x)
                return None if t is None else t + (('returned object', r is e, True),)
            ck.case('%s: set_params(all, setting %d)' % (cls, w), setall, All('every parameter replaced, the estimator returned'))

            def copyto():
                x = val(w)
                t = table(meth(ip, mk(x), 'get_params'))
                e = mk(val(1 - w))
                if t is None:
                    return None
                meth(ip, e, 'set_params', **t)
                return params_of(e, names, x)
            ck.case('%s: set_params(get_params of another, setting %d)' % (cls, w), copyto, All('every parameter replaced'))
        ck.case('%s: set_params()' % cls, lambda: (lambda e: (('returned object', meth(ip, e, 'set_params') is e, True),))(mk(val(0))), All('the estimator itself'))
        # defaults are reported as stored

        def dflt():
            e = new(env, 'algorithms.' + cls)
            t = table(meth(ip, e, 'get_params'))
            if t is None:
                return None
            return (('keys of get_params', tuple(sorted(t)), tuple(sorted(names))),) + tuple((p, t.get(p, '(missing)'), attr(ip, e, p)) for p in names)
        ck.case('%s(): get_params' % cls, dflt, All('every parameter as stored'))

        def isolated():
            x = val(0)
            e, e2 = mk(x), mk(val(1))
            y = {p: attr(ip, e2, p) for p in names}
            meth(ip, e, 'set_params', **val(1))
            z = val(0)
            new(env, 'algorithms.' + cls, **z)
            return params_of(e2, names, y)
        ck.case('%s: another estimator changed' % cls, isolated, All('parameters unaffected'))
        # types
        for f, nm, t in ((sk_is_classifier, 'is_classifier', 'c'), (sk_is_regressor, 'is_regressor', 'r')):
            for w in (0, 1):
                ck.case('%s(estimator of %s, setting %d)' % (nm, cls, w), lambda: (((nm, f(ip, mk(val(w))), ty == t),)), All(str(ty == t)))
        # fitting
        w = 0
        base = {p: V[0][p] for p in names}
        if cls == 'KernelMachineRegressor':
            base['learner_id'] = lambda: 'SVR'

        def tol(wt_):
            return lambda o: Raises('KMNormError') if NORM_ERR(o) else wt_
        x0 = lambda: {p: f() for p, f in base.items()}
        with finite(ip):
            ck.case('%s: fit returns the estimator' % cls, lambda: (lambda e: (env.pos(), (('returned object', meth(ip, e, 'fit', arr(env, 'X'), tgt()) is e, True),))[1])(mk(x0())),
                    tol(All('the estimator itself')), limit=600)

            def after(pred):
                def run():
                    x = x0()
                    e = fit(mk(x))
                    if pred:
                        meth(ip, e, 'predict', arr(env, 'Y'))
                    return params_of(e, names, x)
                return run
            ck.case('%s: parameters after fitting' % cls, after(False), tol(All('unchanged')), limit=600)
            ck.case('%s: parameters after predicting' % cls, after(True), tol(All('unchanged')), limit=600)
            if ty == 'c':
                def classes():
                    e = fit(mk(x0()))
                    c = attr(ip, e, 'classes_')
                    ev = [x for x in ip.st.s['ev'] if x.kind == 'ext-fit' and not x.data[0].cls.name.endswith('GridSearchCV')]
                    if not ev or isinstance(c, Unk):
                        return None
                    if isinstance(c, Opq):
                        return (('classes_', vkey(c), vkey(Opq(('classes_', ev[-1].data[1]), None))),)
                    return None if isinstance(c, (Arr, PList)) else (('classes_', 'no classes', 'classes'),)
                ck.case('%s: classes after fitting' % cls, classes, tol(All('the classes of the fitted SVM')), limit=600)

                def reclasses():
                    e = fit(mk(x0()))
                    meth(ip, e, 'fit', arr(env, 'Z'), env.arr('u', (n,), I8))
                    c = attr(ip, e, 'classes_')
                    ev = [x for x in ip.st.s['ev'] if x.kind == 'ext-fit' and not x.data[0].cls.name.endswith('GridSearchCV')]
                    if not ev or not isinstance(c, Opq):
                        return None if isinstance(c, (Unk, Arr, PList)) else (('classes_', 'no classes', 'classes'),)
                    return (('classes_', vkey(c), vkey(Opq(('classes_', ev[-1].data[1]), None))),)
                ck.case('%s: classes after fitting twice' % cls, reclasses, tol(All('the classes of the last fit')), limit=600)
            else:
                ck.case('%s: fitting twice returns the estimator' % cls,
                        lambda: (lambda e: (fit(e), (('returned object', meth(ip, e, 'fit', arr(env, 'X'), tgt()) is e, True),))[1])(mk(x0())), tol(All('the estimator itself')), limit=600)
    ck.fork([lambda c=c: group(c) for c in ESTIMATORS])
