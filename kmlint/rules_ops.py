"""Rules for the pure matrix operations (C05, C06, C18, C19)."""
from .core import *
from .harness import *
from .registry import rule, call, meth, attr, new

n, m, d = N, M_, D
i, j = I(0), I(1)


def el(name, *ix):
    return A(('idx', (name,), tuple(P(x) for x in ix)))


def S(vs, f):
    """Sum over fresh variables with the given limits."""
    qs = [fresh_q() for _ in vs]
    return mk_sum(list(zip(qs, vs)), f(*[A(q) for q in qs]))


def centered(K, size, a, b):
    """Double centering of K (function of two indices)."""
    return (K(a, b) - S([size], lambda p: K(p, b)) / size - S([size], lambda p: K(a, p)) / size
            + S([size, size], lambda p, q: K(p, q)) / (size * size))


def Kf(name):
    return lambda a, b: el(name, a, b)


def notclose0(p):
    return ('p', 'close') + tuple(sorted((P(p), ZERO), key=rk))


SIZES = [N]


@rule('C06')
def c06(ck):
    env, ip = ck.env, ck.ip
    cen = env.get('operations.center_km')
    for dt in (F8, I8):
        ck.case('center_km(%s square)' % dt.name, lambda: (env.pos(), call(ip, cen, env.arr('K', (n, n), dt)))[1],
                ArrIs((n, n), centered(Kf('K'), n, i, j), dt='float64'))
    ck.case('center_km(n x m)', lambda: (env.pos(), call(ip, cen, env.arr('K', (n, m))))[1],
            [(mk_eq(n - m), ArrIs((n, n), centered(Kf('K'), n, i, j))), (True, Raises('ValueError'))])
    for nm, v in (('list of lists', PList([PList([1, 2]), PList([2, 1])])), ('None', None), ('number', 3), ('string', 'abc')):
        ck.case('center_km(%s)' % nm, lambda: call(ip, cen, v), Raises('Exception'))
    fp, fnm = env.get('operations.frobenius_product'), env.get('operations.frobenius_norm')
    ck.case('frobenius_product(equal shapes)', lambda: (env.pos(), call(ip, fp, env.arr('A', (n, m)), env.arr('B', (n, m))))[1],
            ScIs(S([n, m], lambda p, q: el('A', p, q) * el('B', p, q))))
    ck.case('frobenius_product(square)', lambda: (env.pos(), call(ip, fp, env.arr('A', (n, n)), env.arr('B', (n, n))))[1],
            ScIs(S([n, n], lambda p, q: el('A', p, q) * el('B', p, q))))
    ck.case('frobenius_product(shapes n x m and d x s)',
            lambda: (env.pos(n, m, d, isym('s')), call(ip, fp, env.arr('A', (n, m)), env.arr('B', (d, isym('s')))))[1],
            [(mk_and(mk_eq(n - d), mk_eq(m - isym('s'))), ScIs(S([n, m], lambda p, q: el('A', p, q) * el('B', p, q)))),
             (True, Raises('ValueError'))])
    ck.case('frobenius_norm', lambda: (env.pos(), call(ip, fnm, env.arr('A', (n, m))))[1],
            ScIs(sqrt(S([n, m], lambda p, q: el('A', p, q) * el('A', p, q)))))
    # through a kernel matrix, normalization on and off
    K = lambda a, b: kern('k', ('row', ('X',), P(a)), ('row', ('X',), P(b)))
    Knn = centered(K, n, i, j)
    fro = sqrt(S([n, n], lambda p, q: K(p, q) * K(p, q)))
    for norm in (False, True):
        def km(two=False):
            return attached(ck, norm, two)
        tag = 'normalized' if norm else 'raw'
        ck.case('KernelMatrix(%s).centered' % tag, lambda: attr(ip, km(), 'centered'), ArrIs((n, n), Knn, dt='float64'))

        def via_center():
            k = km()
            meth(ip, k, 'center')
            return attr(ip, k, 'centered')
        ck.case('KernelMatrix(%s).center() then centered' % tag, via_center, ArrIs((n, n), Knn, dt='float64'))
        ck.case('KernelMatrix(%s).frob_norm' % tag, lambda: attr(ip, km(), 'frob_norm'), ScIs(fro))
        ck.case('KernelMatrix(%s, two samples).centered' % tag, lambda: attr(ip, km(True), 'centered'), Raises('Exception'))
        ck.case('KernelMatrix(%s, two samples).center()' % tag, lambda: meth(ip, km(True), 'center'), Raises('Exception'))
        K2 = lambda a, b: kern('k', ('row', ('X',), P(a)), ('row', ('Y',), P(b)))
        ck.case('KernelMatrix(%s, two samples).frob_norm' % tag, lambda: attr(ip, km(True), 'frob_norm'),
                ScIs(sqrt(S([n, m], lambda p, q: K2(p, q) * K2(p, q)))))


def attached(ck, norm, two=False, kname='k'):
    env, ip = ck.env, ck.ip
    k = ip.call(env.get('base.KernelMatrix'), [env.kernel(kname)], {'normalized': norm})
    env.pos()
    kw = {'sample_two': env.arr('Y', (M_, D))} if two else {}
    ip.call(ip.getattr(k, 'attach_to'), [env.arr('X', (N, D))], kw)
    return k


@rule('C18')
def c18(ck):
    env, ip = ck.env, ck.ip
    al = env.get('operations.alignment_centered')
    for cent in (False, True):
        if cent:
            c1, c2 = Kf('A'), Kf('B')
        else:
            c1 = lambda a, b: centered(Kf('A'), n, a, b)
            c2 = lambda a, b: centered(Kf('B'), n, a, b)
        dot = S([n, n], lambda p, q: c1(p, q) * c2(p, q))
        n1 = sqrt(S([n, n], lambda p, q: c1(p, q) * c1(p, q)))
        n2 = sqrt(S([n, n], lambda p, q: c2(p, q) * c2(p, q)))
        zero = mk_or(notclose0(n1), notclose0(n2))
        val = dot / (n1 * n2)
        args = lambda: (env.arr('A', (n, n)), env.arr('B', (n, n)))
        lab = 'alignment_centered(centered_already=%s)' % cent
        ck.case(lab, lambda: (env.pos(), call(ip, al, *args(), centered_already=cent))[1],
                [(zero, Raises('Exception')), (True, ScIs(val))])
        r = sym('subst')
        ck.case(lab + ' with substitute value',
                lambda: (env.pos(), call(ip, al, *args(), centered_already=cent, value_if_zero_division=Sc(r, 'float')))[1],
                [(zero, ScIs(r)), (True, ScIs(val))])
        for sv in (None, 'none', 0, False):
            ck.case(lab + ' with substitute %r' % (sv,),
                    lambda: (env.pos(), call(ip, al, *args(), centered_already=cent, value_if_zero_division=sv))[1],
                    [(zero, ScIs(ZERO) if sv == 0 and sv is not False else Pred(lambda o: o.kind == 'ok' and (o.val is sv if not isinstance(sv, str) else o.val == sv), 'the substitute %r' % (sv,))),
                     (True, ScIs(val))])
        ck.case(lab + ' arguments swapped',
                lambda: (env.pos(), call(ip, al, *args()[::-1], centered_already=cent))[1],
                [(zero, Raises('Exception')), (True, ScIs(val))])
    s = isym('s')
    ck.case('alignment_centered(unequal shapes)',
            lambda: (env.pos(n, m, d, s), ip.assume(mk_not(mk_and(mk_eq(n - d), mk_eq(m - s)))),
                     call(ip, al, env.arr('A', (n, m)), env.arr('B', (d, s))))[2], Raises('ValueError'))
    for nm, bad in (('list', PList([PList([1, 2]), PList([2, 1])])), ('None', None), ('kernel set', None)):
        ck.case('alignment_centered(array, %s)' % nm, lambda: (env.pos(), call(ip, al, env.arr('A', (n, n)), bad))[1], Raises('Exception'))
        ck.case('alignment_centered(%s, array)' % nm, lambda: (env.pos(), call(ip, al, bad, env.arr('A', (n, n))))[1], Raises('Exception'))
    # ideal kernel
    ik = env.get('sampling.ideal_kernel')
    for dt in (F8, I8):
        ck.case('ideal_kernel(%s array)' % dt.name, lambda: (env.pos(), call(ip, ik, env.arr('t', (n,), dt)))[1],
                ArrIs((n, n), el('t', i) * el('t', j)))
    a, b, c = sym('a'), sym('b'), sym('c')
    ck.case('ideal_kernel(list of 3)', lambda: call(ip, ik, PList([Sc(a), Sc(b), Sc(c)])),
            ArrIs((3, 3), pick([a, b, c], i) * pick([a, b, c], j)))
    # correlation
    co = env.get('sampling.correlation_km')
    ck.case('correlation_km', lambda: (env.pos(), call(ip, co, env.arr('A', (n, n)), env.arr('B', (n, n))))[1],
            ScIs(pearson(Kf('A'), Kf('B'), n)))
    pw = env.get('sampling.pairwise_similarity')
    with finite(ip):
        for p in ((2, 3) if ck.tier == 'quick' else (2, 3, 4)):
            want = ZERO
            for a in range(p):
                for b in range(p):
                    want = want + ind(mk_eq(i - P(a))) * ind(mk_eq(j - P(b))) * pearson(kx('k%d' % a), kx('k%d' % b), n)
            ck.case('pairwise_similarity(%d kernels, corr)' % p, lambda: call(ip, pw, kset(ck, p), metric='corr'),
                    ArrIs((p, p), want))
            ck.case('pairwise_similarity(%d kernels)' % p, lambda: call(ip, pw, kset(ck, p)), ArrIs((p, p), want))
            cs = [(lambda a: lambda x, y: centered(kx('k%d' % a), n, x, y))(a) for a in range(p)]
            nr = [sqrt(S([n, n], lambda x, y: cs[a](x, y) * cs[a](x, y))) for a in range(p)]
            want = ZERO
            for a in range(p):
                for b in range(p):
                    v = S([n, n], lambda x, y: cs[a](x, y) * cs[b](x, y)) / (nr[a] * nr[b])
                    want = want + ind(mk_eq(i - P(a))) * ind(mk_eq(j - P(b))) * \
                        ind(mk_not(mk_or(notclose0(nr[a]), notclose0(nr[b])))) * v
            if p > 3:
                continue
            ck.case('pairwise_similarity(%d kernels, align)' % p, lambda: call(ip, pw, kset(ck, p), metric='align'),
                    ArrIs((p, p), want), limit=1000)


def pearson(K1, K2, size):
    def t(K):
        from .extlib import arr_term
        return arr_term(Arr((size, size), K(i, j)))
    return fn('pearsonr', t(K1), t(K2))


def kx(k):
    return lambda a, b: kern(k, ('row', ('X',), P(a)), ('row', ('X',), P(b)))


class finite:
    """Assume finite kernel values inside the block."""

    def __init__(self, ip, on=True):
        self.ip, self.on = ip, on

    def __enter__(self):
        self.old = self.ip.all_finite
        self.ip.all_finite = self.on

    def __exit__(self, *a):
        self.ip.all_finite = self.old


def kset(ck, p, norm=False, attach=True, names='k', cls='base.KernelSet'):
    """Kernel set of p kernel matrices attached to X, built by the public API."""
    env, ip = ck.env, ck.ip
    env.pos()
    ms = []
    for a in range(p):
        k = new(env, 'base.KernelMatrix', env.kernel('%s%d' % (names, a)), normalized=norm)
        if attach:
            meth(ip, k, 'attach_to', env.arr('X', (N, D)))
        ms.append(k)
    return new(env, cls, PList(ms))


def diag_close(name, size):
    q = fresh_q()
    return mk_any([(q, size)], notclose0(el(name, A(q), A(q))))


def vec_close(f, size):
    q = fresh_q()
    return mk_any([(q, size)], notclose0(f(A(q))))


@rule('C05')
def c05(ck):
    env, ip = ck.env, ck.ip
    nk, nk2 = env.get('operations.normalize_km'), env.get('operations.normalize_km_2sample')
    pos = lambda f, size: vec_pos(ip, f, size)
    dg = lambda nm: (lambda q: el(nm, q, q))
    cosd = lambda: (env.pos(), pos(dg('K'), n))
    want = el('K', i, j) / sqrt(el('K', i, i) * el('K', j, j))
    zero = diag_close('K', n)
    KME = Raises('KMNormError')
    with finite(ip):
        for kw in ({}, {'method': 'cosine'}, {'method': 'COSINE'}):
            for dt in (F8, I8):
                ck.case('normalize_km(%s %r)' % (dt.name, kw), lambda: (cosd(), call(ip, nk, env.arr('K', (n, n), dt), **kw))[1],
                        [(zero, KME), (True, ArrIs((n, n), want, dt='float64'))], pre=posc(dg('K'), n))
        for bad in ('linear', 'unknown'):
            ck.case('normalize_km(method=%s)' % bad, lambda: (cosd(), call(ip, nk, env.arr('K', (n, n)), method=bad))[1],
                    Raises('NotImplementedError'))
        ck.case('normalize_km(n x m)', lambda: (env.pos(), call(ip, nk, env.arr('K', (n, m))))[1],
                [(mk_not(mk_eq(n - m)), Raises('ValueError')), (True, Anything())])
        f1, f2 = (lambda q: el('a', q)), (lambda q: el('b', q))
        pre2 = mk_and(posc(f1, n), posc(f2, m))
        zero2 = mk_or(vec_close(f1, n), vec_close(f2, m))
        want2 = el('K', i, j) / sqrt(el('a', i) * el('b', j))
        args = lambda: (env.pos(), pos(f1, n), pos(f2, m), env.arr('K', (n, m)), env.arr('a', (n,)), env.arr('b', (m,)))[3:]
        for kw in ({}, {'method': 'cosine'}):
            ck.case('normalize_km_2sample(%r)' % kw, lambda: call(ip, nk2, *args(), **kw),
                    [(zero2, KME), (True, ArrIs((n, m), want2, dt='float64'))], pre=pre2)
        ck.case('normalize_km_2sample(method=unknown)', lambda: call(ip, nk2, *args(), method='unknown'), Raises('NotImplementedError'))
        s, u = isym('s'), isym('u')
        ck.case('normalize_km_2sample(mismatched diagonals)',
                lambda: (env.pos(n, m, s, u), ip.assume(mk_or(mk_not(mk_eq(n - s)), mk_not(mk_eq(m - u)))),
                         call(ip, nk2, env.arr('K', (n, m)), env.arr('a', (s,)), env.arr('b', (u,))))[2], Raises('ValueError'))
        # kernel matrices
        for k in ('k',):
            X = lambda q: kern(k, ('row', ('X',), P(q)), ('row', ('X',), P(q)))
            Y = lambda q: kern(k, ('row', ('Y',), P(q)), ('row', ('Y',), P(q)))
            XY = lambda a, b: kern(k, ('row', ('X',), P(a)), ('row', ('Y',), P(b)))
            one = ArrIs((n, n), kx(k)(i, j) / sqrt(X(i) * X(j)), dt='float64')
            two = ArrIs((n, m), XY(i, j) / sqrt(X(i) * Y(j)), dt='float64')
            raw1, raw2 = ArrIs((n, n), kx(k)(i, j)), ArrIs((n, m), XY(i, j))
            z1, z2 = vec_close(X, n), mk_or(vec_close(X, n), vec_close(Y, m))

            def km(norm, tw=False):
                o = attached(ck, norm, tw)
                pos(X, n)
                if tw:
                    pos(Y, m)
                return o

            def norm_then(norm, tw, what):
                o = km(norm, tw)
                meth(ip, o, 'normalize')
                return attr(ip, o, what)

            def normalize_m(norm, tw, how):
                o = km(norm, tw)
                meth(ip, o, 'normalize', method=how)
                return attr(ip, o, 'normed_km')
            for tw in (False, True):
                w, z, rw = (two, z2, raw2) if tw else (one, z1, raw1)
                t = 'two samples' if tw else 'one sample'
                sp = [(z, KME), (True, w)]
                ck.case('KernelMatrix(normalized, %s).full' % t, lambda: attr(ip, km(True, tw), 'full'), sp)
                ck.case('KernelMatrix(raw, %s).full' % t, lambda: attr(ip, km(False, tw), 'full'), rw)
                for nf in (False, True):
                    ck.case('KernelMatrix(normalized=%s, %s).normed_km' % (nf, t), lambda: attr(ip, km(nf, tw), 'normed_km'), sp)
                    ck.case('KernelMatrix(normalized=%s, %s).normalize(); normed_km' % (nf, t), lambda: norm_then(nf, tw, 'normed_km'), sp)
                    ck.case('KernelMatrix(normalized=%s, %s).normalize(cosine)' % (nf, t), lambda: normalize_m(nf, tw, 'cosine'), sp)
                    ck.case('KernelMatrix(normalized=%s, %s).normalize(unknown)' % (nf, t),
                            lambda: normalize_m(nf, tw, 'unknown'), Raises('NotImplementedError'))
                ck.case('KernelMatrix(raw, %s).normalize(); full' % t, lambda: norm_then(False, tw, 'full'), [(z, KME), (True, rw)])
                ck.case('KernelMatrix(normalized, %s).full_sparse' % t, lambda: attr(ip, km(True, tw), 'full_sparse'),
                        [(z, KME), (True, Pred(lambda o: True, 'any'))])


def posc(f, size):
    q = fresh_q()
    return mk_not(mk_any([(q, size)], mk_lt(f(A(q)))))


def vec_pos(ip, f, size):
    """Self-similarities are not negative."""
    ip.assume(posc(f, size))


@rule('C19')
def c19(ck):
    env, ip = ck.env, ck.ip
    for fname in ('operations.is_PSD', 'operations.is_positive_semidefinite'):
        f = env.get(fname)
        tolv = sym('tol')
        from .extlib import eig_key
        # the sample matrix and the eigenvalues of it
        K = Arr((n, n), el('K', i, j))
        ek = eig_key(ip, K)
        q = fresh_q()
        e = A(('idx', ek, (A(q),)))
        qa, qb = fresh_q(), fresh_q()
        x, y = el('K', A(qa), A(qb)), el('K', A(qb), A(qa))
        asym = mk_any([(qa, n), (qb, n)], mk_not(('p', 'close') + tuple(sorted((x, y), key=rk))))
        for tn, kw in (('default tolerance', {}), ('tolerance', {'tolerance': Sc(tolv)}), ('verbose', {'verbose': True})):
            tv = tolv if 'tolerance' in kw else P(F(1, 10 ** 6))
            neg = mk_any([(q, n)], mk_lt(e + tv))
            nan = mk_any([(q, n)], ('p', 'isnan', e))
            for fail in (False, True):
                ip.fail_hooks = {'eig'} if fail else set()
                try:
                    def spec(o):
                        failed = [l for l, v in o.facts.lit.items() if v is True and l[0] == 'p' and str(l[1]).startswith('eigfail')]
                        if failed:
                            return BoolIs(False)
                        return [(asym, BoolIs(False)), (neg, BoolIs(False)), (True, BoolIs(True))]
                    ck.case('%s(%s%s)' % (fname.split('.')[-1], tn, ', eigenvalue computation may fail' if fail else ''),
                            lambda: (env.pos(), call(ip, f, env.arr('K', (n, n)), **kw))[1], spec)
                finally:
                    ip.fail_hooks = set()
        ck.case('%s(n x m)' % fname.split('.')[-1], lambda: (env.pos(), ip.assume(mk_not(mk_eq(n - m))), call(ip, f, env.arr('K', (n, m))))[2],
                BoolIs(False))
        for nm, v in (('list', PList([PList([1, 0]), PList([0, 1])])), ('None', None), ('number', 3), ('string', 'abc')):
            ck.case('%s(%s)' % (fname.split('.')[-1], nm), lambda: call(ip, f, v), Raises('TypeError'))


def pick(xs, ix):
    r = ZERO
    for k, x in enumerate(xs):
        r = r + x * ind(mk_eq(ix - P(k)))
    return r
