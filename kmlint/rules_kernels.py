"""Rules for kernel functions (C08, C09, C10)."""
from .core import *
from .harness import *
from .registry import rule, call, meth, attr, new
from .rules_ops import el, S, finite, posc
from .terms import EPS

d = D
NK = 'numeric_kernels.'
U1 = Dt('uint8')


def dot():
    return S([d], lambda q: el('x', q) * el('y', q))


def sq():
    return S([d], lambda q: (el('x', q) - el('y', q)) ** 2)


def ab(p):
    return fn('abs', p)


def f_hadamard(alpha):
    def body(q):
        a, b = power(ab(el('x', q)), alpha), power(ab(el('y', q)), alpha)
        return ind(mk_not(mk_le(a + b))) * a * b / (2 * (a + b))
    return S([d], body)


def f_chi2(gamma):
    def body(q):
        x, y = el('x', q), el('y', q)
        return fn('nanzero', (x - y) * (x - y) / (x + y))
    return fn('exp', -gamma * S([d], body))


def f_gauss(sigma):
    return fn('exp', -sq() / (2 * sigma * sigma))


def f_lap(gamma):
    return fn('exp', -gamma * S([d], lambda q: ab(el('x', q) - el('y', q))))


def table():
    """(class, constructor arguments, wanted value, preconditions)"""
    g, b, off, al = sym('gamma'), sym('b'), sym('offset'), sym('alpha')
    sc = lambda p: Sc(p, 'float')
    T = []
    T.append(('LinearKernel', {}, dot(), None))
    for deg in (1, 2, 3, 4):
        T.append(('PolyKernel', {'degree': deg, 'gamma': sc(g), 'b': sc(b)}, power(b + g * dot(), deg), None))
    T.append(('PolyKernel', {}, power(ONE + dot(), 3), None))
    T.append(('PolyKernel', {'degree': Sc(isym('deg'), 'int'), 'gamma': sc(g), 'b': sc(b)}, power(b + g * dot(), isym('deg')), None))
    T.append(('PolyKernel', {'gamma': sc(g)}, power(ONE + g * dot(), 3), None))
    T.append(('PolyKernel', {'b': sc(b)}, power(b + dot(), 3), None))
    T.append(('GaussianKernel', {}, f_gauss(P(2)), None))
    for s in (F(1, 2), F(1), F(3, 2), F(7), F(1, 32), F(100)):
        T.append(('GaussianKernel', {'sigma': sc(P(s))}, f_gauss(P(s)), None))
    T.append(('GaussianKernel', {'sigma': 3}, f_gauss(P(3)), None))
    T.append(('GaussianKernel', {'sigma': sc(sym('sigma'))}, f_gauss(fn('max', EPS, sym('sigma'))), 'sigma'))
    for z in (0, -1):
        T.append(('GaussianKernel', {'sigma': z}, f_gauss(EPS), None))
    T.append(('LaplacianKernel', {}, f_lap(ONE), None))
    T.append(('LaplacianKernel', {'gamma': sc(g)}, f_lap(g), None))
    T.append(('Chi2Kernel', {}, f_chi2(ONE), 'nonneg'))
    T.append(('Chi2Kernel', {'gamma': sc(g)}, f_chi2(g), 'nonneg'))
    T.append(('SigmoidKernel', {}, fn('tanh', ONE + dot()), None))
    T.append(('SigmoidKernel', {'gamma': sc(g), 'offset': sc(off)}, fn('tanh', off + g * dot()), None))
    T.append(('SigmoidKernel', {'gamma': sc(g)}, fn('tanh', ONE + g * dot()), None))
    T.append(('SigmoidKernel', {'offset': sc(off)}, fn('tanh', off + dot()), None))
    T.append(('HadamardKernel', {}, f_hadamard(3), None))
    for a in (1, 2, 3):
        T.append(('HadamardKernel', {'alpha': a}, f_hadamard(a), None))
    T.append(('HadamardKernel', {'alpha': sc(P(F(1, 2)))}, f_hadamard(F(1, 2)), None))
    T.append(('HadamardKernel', {'alpha': sc(al)}, f_hadamard(al), 'alpha'))
    return T


def show_kw(kw):
    return ', '.join('%s=%s' % (k, show(v.p) if isinstance(v, Sc) else v) for k, v in kw.items())


VALS = {'reals': {'sigma': lambda r: r.choice([0.3, 0.5, 1.0, 2.0, 3.5, 0.9]), 'alpha': lambda r: r.choice([0.5, 1.0, 2.0, 1.7, 3.0]),
                  'gamma': lambda r: r.uniform(-0.6, 0.8), 'b': lambda r: r.uniform(-1, 2)},
        'ints': {'deg': (1, 4)}}


def pre_of(pre):
    if pre == 'nonneg':
        return mk_and(posc(lambda q: el('x', q), d), posc(lambda q: el('y', q), d))
    if pre == 'sigma':
        return mk_lt(P(F(1, 100)) - sym('sigma'))
    if pre == 'alpha':
        return mk_lt(P(F(1, 100)) - sym('alpha'))
    return None


@rule('C10')
def c10(ck):
    env, ip = ck.env, ck.ip
    with finite(ip):
        for cls, kw, want, pre in table():
            variants = [({}, F8, F8), ({'skip_input_checks': True}, F8, F8)]
            if cls not in ('PolyKernel',) or not kw or ck.tier != 'quick':
                variants.append(({}, I8, F8))
            if not any(isinstance(v, Sc) for v in kw.values()) or ck.tier != 'quick':
                # images: unsigned or narrow integers must not wrap around
                variants += [({}, U1, U1), ({}, Dt('int16'), Dt('int16'))]
            for extra, t1, t2 in variants:
                def run():
                    env.pos()
                    c = pre_of(pre)
                    if c is not None:
                        ip.assume(c)
                    k = new(env, NK + cls, **dict(kw, **extra))
                    return call(ip, k, env.arr('x', (d,), t1), env.arr('y', (d,), t2))
                sp = ScIs(want)
                if pre == 'alpha':
                    al = sym('alpha')
                    cl = ('p', 'close') + tuple(sorted((al, ZERO), key=rk))
                    sp = [(cl, Raises('ValueError')), (True, ScIs(want))]
                ck.case('%s(%s)(%s x, %s y)' % (cls, show_kw(dict(kw, **extra)), t1.name, t2.name), run, sp, vals=VALS)
        # lists of numbers as input
        for cls in ('LinearKernel', 'GaussianKernel', 'PolyKernel', 'LaplacianKernel', 'SigmoidKernel'):
            a, b, c, e = [sym(z) for z in 'abce']
            wants = {'LinearKernel': a * c + b * e, 'PolyKernel': power(ONE + a * c + b * e, 3),
                     'GaussianKernel': fn('exp', -((a - c) ** 2 + (b - e) ** 2) / 8),
                     'LaplacianKernel': fn('exp', -(ab(a - c) + ab(b - e))),
                     'SigmoidKernel': fn('tanh', ONE + a * c + b * e)}
            ck.case('%s()(list, list)' % cls, lambda: call(ip, new(env, NK + cls), PList([Sc(a), Sc(b)]), PList([Sc(c), Sc(e)])),
                    ScIs(wants[cls]))
        # categorical
        cnt = S([d], lambda q: ind(mk_eq(el('x', q) - el('y', q))))
        for kw, want in (({}, cnt / d), ({'return_perc': True}, cnt / d), ({'return_perc': False}, cnt),
                         ({'return_perc': False, 'skip_input_checks': True}, cnt), ({'skip_input_checks': True}, cnt / d)):
            ck.case('MatchCountKernel(%s)' % show_kw(kw),
                    lambda: (env.pos(), call(ip, new(env, 'categorical.MatchCountKernel', **kw), env.arr('x', (d,), STR), env.arr('y', (d,), STR)))[1],
                    ScIs(want))
        callable_rule(ck)


def user_func(params=2):
    """A user's kernel function with the given number of parameters."""
    f = Opq(('userfn', params), None)
    return f


def callable_rule(ck):
    env, ip = ck.env, ck.ip
    from .extlib import akey
    x, y = (lambda: env.arr('x', (d,))), (lambda: env.arr('y', (d,)))
    f = user_func()
    for nm, kw in (('no parameters', {}), ('parameters', {'alpha': Sc(sym('pa'), 'float'), 'beta': 3})):
        want = ('call', f.key, akey(x()), akey(y())) + tuple(sorted((k, akey(v)) for k, v in kw.items()))

        def good(o):
            if o.kind != 'ok':
                return False
            if isinstance(o.val, Opq):
                return o.val.key == want
            return None if isinstance(o.val, Unk) else False
        nargs = mk_le(P(2) - A(('fn', 'len', (A(('opq', ('parameters', ('userfn', 2)))),))))

        def run():
            ip.assume(('p', 'callable', f.key))
            ip.assume(nargs)
            k = new(env, 'base.KernelFromCallable', f, **kw)
            return call(ip, k, x(), y())
        ck.case('KernelFromCallable(f, %s)(x, y)' % nm, run, Pred(good, 'exactly f(x, y, <stored parameters>)'))


# ---------------------------------------------------------------- C08
@rule('C08')
def c08(ck):
    env, ip = ck.env, ck.ip
    swap = {('idx',): None}
    with finite(ip):
        done = set()
        for cls, kw, want, pre in table():
            for extra in ({}, {'skip_input_checks': True}):
                symmetric(ck, NK + cls, dict(kw, **extra), F8, None if pre == 'nonneg' else pre)
            symmetric(ck, NK + cls, kw, U1, None if pre == 'nonneg' else pre)
        for kw in ({}, {'return_perc': False}, {'skip_input_checks': True}):
            symmetric(ck, 'categorical.MatchCountKernel', kw, STR, None)


def snap(ip, o):
    """State of a kernel object."""
    return vkey(o)


def symmetric(ck, path, kw, dt, pre):
    env, ip = ck.env, ck.ip
    lab = '%s(%s)%s' % (path.split('.')[-1], show_kw(kw), '' if dt in (F8, STR) else ' on ' + dt.name)

    def run(order):
        def f():
            run.k = None
            env.pos()
            c = pre_of(pre)
            if c is not None:
                ip.assume(c)
            k = new(env, path, **kw)
            before = snap(ip, k)
            x, y = env.arr('x', (d,), dt), env.arr('y', (d,), dt)
            run.k = k
            run.before = before
            return call(ip, k, *((x, y) if order else (y, x)))
        return f

    def cap(o):
        r = freeze(o.val)
        o.val = r
        return (snap(ip, run.k) == run.before, diff_state(run.before, snap(ip, run.k))) if run.k is not None else (True, '')
    outs = []
    for order in (True, False):
        run.k = None
        r = ck.explore(lab, run(order), capture=cap)
        if r is None:
            return
        outs.append(r)
    # purity
    pure = 0
    for o in outs[0] + outs[1]:
        if o.taint:
            ck.undecided(lab, 'analysis lost track: %s' % (o.taint[0],))
            continue
        if not o.extra[0]:
            ck.violation(lab + ' purity', 'calling the kernel changes the kernel object: %s' % o.extra[1], o)
        else:
            pure += 1
    ck.obl.append((lab + ' leaves the kernel unchanged', len(outs[0]) + len(outs[1]), pure, 0, 0))
    # symmetry: each path of k(x, y) against all paths of k(y, x)
    spec = []
    for o in outs[1]:
        cond = mk_and(*o.conds) if o.conds else True
        if o.taint:
            return
        if o.kind == 'raise':
            spec.append((cond, Raises(o.val.cls.name.split('.')[-1])))
        else:
            g = scalar_of(o.val)
            if g is None or g is False:
                ck.undecided(lab, 'not a scalar')
                return
            spec.append((cond, ScIs(g)))
    np_ = pv = sm = un = 0
    for o in outs[0]:
        r = ck.judge(lab + ' k(x,y) against k(y,x)', o, spec, vals=VALS)
        np_ += 1
        pv += r == 'proved'
        sm += r == 'sampled'
        un += r == UND
    ck.obl.append((lab + ' symmetry', np_, pv, sm, un))


def diff_state(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        da = {x[0]: x for x in a if isinstance(x, tuple) and len(x) == 2}
        db = {x[0]: x for x in b if isinstance(x, tuple) and len(x) == 2}
        ch = [str(k) for k in sorted(set(da) | set(db), key=str) if da.get(k) != db.get(k)]
        return 'attribute(s) ' + ', '.join(ch)
    return ''


# ---------------------------------------------------------------- C09
@rule('C09')
def c09(ck):
    env, ip = ck.env, ck.ip
    m_, n_ = M_, N
    kernels = [('LinearKernel', {}), ('PolyKernel', {}), ('GaussianKernel', {}), ('LaplacianKernel', {}), ('SigmoidKernel', {}),
               ('HadamardKernel', {}), ('Chi2Kernel', {}), ('PolyKernel', {'degree': 2, 'skip_input_checks': False})]
    nonneg = lambda: ip.assume(pre_of('nonneg'))
    a, b, c = sym('a'), sym('b'), sym('c')
    num3 = lambda: PList([Sc(a), Sc(b), Sc(c)])
    bad = lambda why: Dt('object', why)
    VE = Raises('ValueError')
    with finite(ip):
        for cls, kw in kernels:
            chi = cls == 'Chi2Kernel'
            mk = lambda: (env.pos(n_, m_, d), new(env, NK + cls, **kw))[1]

            def C(lab, X, Y, spec):
                for o in (0, 1):
                    def run():
                        k = mk()
                        x, y = X(), Y()
                        return call(ip, k, *((x, y) if o == 0 else (y, x)))
                    ck.case('%s(%s)%s' % (cls, lab, ' swapped' if o else ''), run, spec, vals=VALS)
            v = lambda nm='x', s=(d,), dt=F8: (lambda: env.arr(nm, s, dt))
            s = isym('s')
            ge2 = lambda: (ip.assume(mk_le(P(2) - n_)), ip.assume(mk_le(P(2) - m_)))
            C('2-D array', lambda: (ge2(), env.arr('x', (n_, m_)))[1], v('y'), VE)
            C('row vector 1 x m', lambda: (ge2(), env.arr('x', (1, m_)))[1], v('y'), VE)
            C('0-D array', lambda: env.arr('x', ()), v('y'), VE)
            C('number', lambda: Sc(a), v('y'), VE)
            C('2-D both', lambda: (ge2(), env.arr('x', (n_, m_)))[1], lambda: env.arr('y', (n_, m_)), VE)
            C('3-D array', lambda: (ge2(), env.arr('x', (n_, m_, d)))[1], v('y'), VE)
            diff = [(mk_not(mk_eq(n_ - m_)), Raises('ValueError', 'Chi2NegativeValuesException') if False else VE), (True, Anything())]
            C('lengths n and m', v('x', (n_,)), v('y', (m_,)), diff)
            C('list of 3 and length n', num3, v('y', (n_,)), [(mk_not(mk_eq(n_ - P(3))), VE), (True, Anything())])
            C('strings', lambda: PList(['a', 'b']), lambda: PList([1, 2]), VE)
            C('object array that is not numeric', lambda: Arr((d,), el('x', I(0)), Dt('object', 'TypeError')), v('y'), VE)
            C('string array that is not numeric', lambda: Arr((d,), el('x', I(0)), Dt('str_', 'ValueError')), v('y'), VE)
            C('None', lambda: None, v('y'), VE)
            okspec = Returns() if not chi else [(mk_not(pre_of('nonneg')), Raises('Chi2NegativeValuesException')), (True, Returns())]
            C('float vectors', v('x'), v('y'), okspec)
            C('int and float vectors', v('x', (d,), I8), v('y'), okspec)
            C('bool and float vectors', v('x', (d,), B1), v('y'), Returns() if not chi else Anything())
            C('column vectors d x 1', lambda: env.arr('x', (d, 1)), lambda: env.arr('y', (d, 1)), okspec if not chi else Anything())
            C('lists', lambda: PList([1, 2, 3]), lambda: PList([0, 1, 1]), Returns())
        # chi2 rejects negatives even when checks are skipped
        for kw in ({}, {'skip_input_checks': True}, {'gamma': Sc(sym('gamma')), 'skip_input_checks': True}):
            neg = mk_not(pre_of('nonneg'))
            ck.case('Chi2Kernel(%s) negative values' % show_kw(kw),
                    lambda: (env.pos(), call(ip, new(env, NK + 'Chi2Kernel', **kw), env.arr('x', (d,)), env.arr('y', (d,))))[1],
                    [(neg, Raises('Chi2NegativeValuesException')), (True, Returns())], vals=VALS)
        # hadamard exponent
        al = sym('alpha')
        cl = ('p', 'close') + tuple(sorted((al, ZERO), key=rk))
        for kw in ({}, {'skip_input_checks': True}):
            ck.case('HadamardKernel(alpha)', lambda: new(env, NK + 'HadamardKernel', alpha=Sc(al), **kw),
                    [(cl, Raises('ValueError')), (True, Returns())])
            for z in (0, 0.0):
                ck.case('HadamardKernel(alpha=%r)' % z, lambda: new(env, NK + 'HadamardKernel', alpha=z if z.__class__ is int else Sc(ZERO), **kw),
                        Raises('ValueError'))
        # categorical
        MC = 'categorical.MatchCountKernel'
        for kw in ({}, {'skip_input_checks': True}, {'return_perc': False}):
            mk = lambda: (env.pos(n_, m_, d), new(env, MC, **kw))[1]
            st = lambda nm, s=(d,): env.arr(nm, s, STR)
            t = 'MatchCountKernel(%s)' % show_kw(kw)
            for dt in (F8, I8, B1, OBJ):
                ck.case('%s %s and string' % (t, dt.name), lambda: call(ip, mk(), env.arr('x', (d,), dt), st('y')), Raises('TypeError'))
                ck.case('%s string and %s' % (t, dt.name), lambda: call(ip, mk(), st('x'), env.arr('y', (d,), dt)), Raises('TypeError'))
                ck.case('%s %s both' % (t, dt.name), lambda: call(ip, mk(), env.arr('x', (d,), dt), env.arr('y', (d,), dt)), Raises('TypeError'))
            ck.case('%s lengths n and m' % t, lambda: call(ip, mk(), st('x', (n_,)), st('y', (m_,))),
                    [(mk_not(mk_eq(n_ - m_)), VE), (True, Returns())])
            ck.case('%s valid' % t, lambda: call(ip, mk(), st('x'), st('y')), Returns())
            ck.case('%s lists of numbers' % t, lambda: call(ip, mk(), PList([1, 2]), PList([1, 3])), Raises('TypeError'))
            ck.case('%s lists of strings' % t, lambda: call(ip, mk(), PList(['a', 'b']), PList(['a', 'c'])), Returns())
