"""Rules for kernel matrices (C01, C02, C03, C04, C07, C20, C25)."""
from .core import *
from .harness import *
from .registry import rule, call, meth, attr, new
from .rules_ops import el, S, finite, attached, kx

n, m, d = N, M_, D
i, j = I(0), I(1)
ALL = lambda: SliceV(None, None, None)


def K1(a, b):
    return kern('k', ('row', ('X',), P(a)), ('row', ('X',), P(b)))


def K2(a, b):
    return kern('k', ('row', ('X',), P(a)), ('row', ('Y',), P(b)))


def isc(p):
    return Sc(P(p), 'int')


def intlist(nm, length=None, kind='list'):
    q = fresh_q()
    return PList(segs=[Seg([(q, length if length is not None else isym('len' + nm))], True,
                           Sc(A(('idx', ('int', nm), (A(q),))), 'int'))], kind=kind)


def at_int(nm, q):
    return A(('idx', ('int', nm), (P(q),)))


def exists(hi, f):
    q = fresh_q()
    return mk_any([(q, P(hi))], f(A(q)))


def inside(p, size):
    return mk_and(mk_le(-P(p)), mk_lt(P(p) - P(size)))


def sortuniq(vals, nm=None, length=None):
    """Terms (length, element at index) of the sorted distinct values of a
    symbolic integer collection, in the analyser's vocabulary."""
    l = intlist(nm, length) if nm else PList([isc(v) for v in vals])
    from .extlib import akey
    return l


# ---------------------------------------------------------------- C01
def selectors(env, two):
    """(label, row selector, column selector, validity, rows, cols): rows/cols
    give (count, index term of the k-th selected sample)."""
    a, b = isym('a'), isym('b')
    cols = m if two else n
    T = []
    T.append(('[a, b]', lambda: (isc(a), isc(b)), mk_and(inside(a, n), inside(b, cols)),
              (ONE, lambda k: a), (ONE, lambda k: b)))
    T.append(('[0, b]', lambda: (0, isc(b)), inside(b, cols), (ONE, lambda k: ZERO), (ONE, lambda k: b)))
    T.append(('[a, 0]', lambda: (isc(a), 0), inside(a, n), (ONE, lambda k: a), (ONE, lambda k: ZERO)))
    T.append(('[:, :]', lambda: (ALL(), ALL()), True, (n, lambda k: k), (cols, lambda k: k)))
    T.append(('[a, :]', lambda: (isc(a), ALL()), inside(a, n), (ONE, lambda k: a), (cols, lambda k: k)))
    T.append(('[:, b]', lambda: (ALL(), isc(b)), inside(b, cols), (n, lambda k: k), (ONE, lambda k: b)))
    for st, nm in ((SliceV(isc(a), isc(b), None), '[a:b, 0]'),):
        rng = mk_and(mk_le(-a), mk_le(a - b + 1), mk_le(b - n))
        T.append((nm, lambda st=st: (SliceV(isc(a), isc(b), None), 0), rng, (b - a, lambda k: a + k), (ONE, lambda k: ZERO)))
        rng2 = mk_and(mk_le(-a), mk_le(a - b + 1), mk_le(b - cols))
        T.append(('[0, a:b]', lambda: (0, SliceV(isc(a), isc(b), None)), rng2, (ONE, lambda k: ZERO), (b - a, lambda k: a + k)))
    two_ = mk_and(inside(a, n), inside(b, n), mk_lt(a - b))
    T.append(('[[a, b], 0]', lambda: (PList([isc(a), isc(b)]), 0), two_,
              (P(2), lambda k: a + k * (b - a)), (ONE, lambda k: ZERO)))
    T.append(('[[b, a], 0]', lambda: (PList([isc(b), isc(a)]), 0), two_,
              (P(2), lambda k: a + k * (b - a)), (ONE, lambda k: ZERO)))
    T.append(('[[a, a], 0]', lambda: (PList([isc(a), isc(a)]), 0), inside(a, n), (ONE, lambda k: a), (ONE, lambda k: ZERO)))
    twoc = mk_and(inside(a, cols), inside(b, cols), mk_lt(a - b))
    T.append(('[0, [b, a]]', lambda: (0, PList([isc(b), isc(a)])), twoc,
              (ONE, lambda k: ZERO), (P(2), lambda k: a + k * (b - a))))
    T.append(('[(b, a, b), 0]', lambda: ((isc(b), isc(a), isc(b)), 0), two_,
              (P(2), lambda k: a + k * (b - a)), (ONE, lambda k: ZERO)))
    T.append(('[{a, b}, 0]', lambda: (PList([isc(a), isc(b)], kind='set'), 0), two_,
              (P(2), lambda k: a + k * (b - a)), (ONE, lambda k: ZERO)))
    T.append(('[::-1, 0]', lambda: (SliceV(None, None, -1), 0), True, (n, lambda k: k), (ONE, lambda k: ZERO)))
    T.append(('[0, ::-1]', lambda: (0, SliceV(None, None, -1)), True, (ONE, lambda k: ZERO), (cols, lambda k: k)))
    T.append(('[a:, 0]', lambda: (SliceV(isc(a), None, None), 0), mk_and(mk_le(-a), mk_lt(a - n)),
              (n - a, lambda k: a + k), (ONE, lambda k: ZERO)))
    T.append(('[:b, 0]', lambda: (SliceV(None, isc(b), None), 0), mk_and(mk_lt(-b), mk_le(b - n)),
              (b, lambda k: k), (ONE, lambda k: ZERO)))
    c, e = isym('c'), isym('e')
    T.append(('[[a, b], :]', lambda: (PList([isc(a), isc(b)]), ALL()), two_, (P(2), lambda k: a + k * (b - a)), (cols, lambda k: k)))
    T.append(('[:, [b, a]]', lambda: (ALL(), PList([isc(b), isc(a)])), twoc, (n, lambda k: k), (P(2), lambda k: a + k * (b - a))))
    T.append(('[a:b, :]', lambda: (SliceV(isc(a), isc(b), None), ALL()), rng, (b - a, lambda k: a + k), (cols, lambda k: k)))
    T.append(('[:, a:b]', lambda: (ALL(), SliceV(isc(a), isc(b), None)), rng2, (n, lambda k: k), (b - a, lambda k: a + k)))
    T.append(('[a:b, c:e]', lambda: (SliceV(isc(a), isc(b), None), SliceV(isc(c), isc(e), None)),
              mk_and(rng, mk_le(-c), mk_le(c - e + 1), mk_le(e - cols)), (b - a, lambda k: a + k), (e - c, lambda k: c + k)))
    T.append(('[-1:, 0]', lambda: (SliceV(-1, None, None), 0), True, (ONE, lambda k: n - 1), (ONE, lambda k: ZERO)))
    return T


BLOCKS = [(([0, 1], [1, 2, 3]), ([0, 1], [1, 2, 3])), (([3, 1], [2, 0, 1]), ([1, 3], [0, 1, 2])), (([2, 2, 0, 3], [3, 1]), ([0, 2, 3], [1, 3])),
          (((0, 2, None), (1, 4, None)), ([0, 1], [1, 2, 3])), (((1, None, None), (None, 2, None)), ([1, 2, 3, 4], [0, 1])),
          (((None, None, 2), [3, 1]), ([0, 2, 4], [1, 3])), (((3, 0, -1), (None, None, 3)), ([1, 2, 3], [0, 3])),
          (([4], [0, 1, 2, 3]), ([4], [0, 1, 2, 3])), (([0, 1, 2, 3, 4], [2]), ([0, 1, 2, 3, 4], [2])),
          (([0, 1, 2, 3, 4], [3, 2]), ([0, 1, 2, 3, 4], [2, 3])), (([1, 2], [0, 1, 2, 3]), ([1, 2], [0, 1, 2, 3]))]


def block_case(ck, norm, two):
    """Blocks with several rows and several columns of a small matrix."""
    env, ip = ck.env, ck.ip
    Kf = K2 if two else K1

    def sel(s):
        return SliceV(*s) if isinstance(s, tuple) else PList(list(s))
    for (r, c), (er, ec) in BLOCKS:
        tab = [((x, y), Kf(P(u), P(v))) for x, u in enumerate(er) for y, v in enumerate(ec)]
        lab = 'KernelMatrix(%s)[%s]' % ('5 x 4 samples' if two else '5 samples', ', '.join(
            ':'.join('' if z is None else str(z) for z in s) if isinstance(s, tuple) else str(s) for s in (r, c)))
        ck.case(lab + (' normalized' if norm else ''),
                lambda: M.getitem(ip, att_c(ck, norm, two, 5, 4 if two else 5), (sel(r), sel(c))), Table((len(er), len(ec)), tab))


class Table(Want):
    """A small array with the given entries."""
    def __init__(self, shape, tab):
        self.shape, self.tab = shape, tab

    def __str__(self):
        return 'array %s: %s' % (self.shape, '; '.join('%s: %s' % (p_, show(v)) for p_, v in self.tab))

    def cells(self, o):
        if o.kind != 'ok':
            return False
        if not isinstance(o.val, Arr):
            return None if isinstance(o.val, Unk) else False
        if len(o.val.shape) != 2 or [x.const() for x in o.val.shape] != list(self.shape):
            return None if any(x.const() is None for x in o.val.shape) else False
        b = body_of(o.val)
        if not isinstance(b, Poly):
            return None
        return [(p_, subst(b, {('i', k): P(x) for k, x in enumerate(p_)}), v) for p_, v in self.tab]

    def static(self, ck, o):
        c = self.cells(o)
        if c is None or c is False:
            return c
        for p_, g, v in c:
            r = same_poly(g, v, o.facts)
            if not r:
                return r
        return True

    def at(self, ck, o, v):
        c = self.cells(o)
        if c is False:
            return describe(o)
        if c is None:
            raise Undecided('unknown value')
        for p_, g, w in c:
            if alien(g, w):
                raise Undecided('uninterpreted functions in the result')
            x, y = v.num(g), v.num(w)
            if differ(x, y):
                return 'entry %s is %s instead of %s' % (list(p_), show(g), show(w))
        return None


VALS1 = {'ints': {'a': (-1, 4), 'b': (-1, 4), 'c': (-1, 3), 'e': (-1, 4), 'lenu': (0, 3), 'lenw': (0, 3)}}


@rule('C01')
def c01(ck):
    """Every entry exposed by full, indexing, diagonal and full_sparse equals the
    kernel value of the matching rows, for symbolic sizes and selectors."""
    env, ip = ck.env, ck.ip
    for fin in (True, False):
        with finite(ip, fin):
            for two in (False, True):
                Kf = K2 if two else K1
                cols = m if two else n
                tag = ('two samples' if two else 'one sample') + ('' if fin else ', values may be non-finite')
                ck.case('KernelMatrix(%s).full' % tag, lambda: attr(ip, attached(ck, False, two), 'full'),
                        ArrIs((n, cols), Kf(i, j), dt='float64'))
                for norm in (False, True):
                    t2 = tag + (', normalized' if norm else '')
                    ck.case('KernelMatrix(%s)[:, :]' % t2, lambda: M.getitem(ip, attached(ck, norm, two), (ALL(), ALL())),
                            ArrIs((n, cols), Kf(i, j), dt='float64'))
                    if not two:
                        ck.case('KernelMatrix(%s).diagonal()' % t2, lambda: meth(ip, attached(ck, norm, two), 'diagonal'),
                                ArrIs((n,), Kf(i, i)))
                ck.case('KernelMatrix(%s).full_sparse' % tag, lambda: attr(ip, attached(ck, False, two), 'full_sparse'),
                        sparse_ok(n, cols, Kf))
    with finite(ip):
        for two in (False, True):
            Kf = K2 if two else K1
            cols = m if two else n
            for norm in (False, True):
                tag = ('two samples' if two else 'one sample') + (', normalized' if norm else '')
                block_case(ck, norm, two)
                for lab, sel, valid, (nr, fr_), (nc, fc) in selectors(env, two):
                    if norm and ck.tier == 'quick' and lab not in ('[a, b]', '[[b, a], 0]', '[a:b, 0]'):
                        continue
                    w = ArrIs((nr, nc), Kf(fr_(i), fc(j)))
                    ck.case('KernelMatrix(%s)%s' % (tag, lab), lambda: M.getitem(ip, attached(ck, norm, two), sel()),
                            [(valid, w), (True, Anything())], vals=VALS1)
                a = isym('a')
                fl = fn('floor', a / cols)
                ck.case('KernelMatrix(%s)[linear index]' % tag, lambda: M.getitem(ip, attached(ck, norm, two), isc(a)),
                        [(mk_and(mk_le(-a), mk_lt(a - n * cols)), ArrIs((1, 1), Kf(fl, fn('mod', a, cols)))), (True, Anything())],
                        vals={'ints': {'a': (-1, 12)}})
                # arbitrary collections of indices
                if norm and ck.tier == 'quick':
                    continue
                for lab, dim in (('rows', 0), ('columns', 1)):
                    size = (n, cols)[dim]
                    sel = (lambda: (intlist('u'), isc(ZERO))) if dim == 0 else (lambda: (isc(ZERO), intlist('u')))
                    ok = mk_and(mk_lt(-isym('lenu')), mk_not(exists(isym('lenu'), lambda q: mk_not(inside(at_int('u', q), size)))))
                    L, E = su_terms(ip, intlist('u'))
                    w = ArrIs((L, 1), Kf(E(i), 0)) if dim == 0 else ArrIs((1, L), Kf(0, E(j)))
                    ck.case('KernelMatrix(%s)[collection of %s]' % (tag, lab), lambda: M.getitem(ip, attached(ck, norm, two), sel()),
                            [(ok, w), (True, Anything())], vals=VALS1)


def su_terms(ip, l):
    """Length and element terms of sorted(set(l))."""
    from .extlib import akey
    import ast
    r = None

    def f():
        nonlocal r
        v = ip.call(ip.models.builtin(ip, 'set'), [l], {})
        v = ip.call(ip.models.builtin(ip, 'sorted'), [v], {})
        r = v
        return v
    ip.explore(f)
    g = r.segs[0]
    q, hi = g.vars[0]
    return hi, (lambda k: subst(g.val.p, {q: P(k)}))


def sparse_ok(rows, cols, Kf):
    """Any matrix format; upper triangle as the kernel says; below the diagonal
    either the kernel value or an unset entry."""
    class W(ArrIs):
        def static(self, ck, o):
            x = self.pre(o)
            if x is None or x is False:
                return x
            self.fmt = x.fmt
            return ArrIs.static(self, ck, o)

        def at(self, ck, o, v):
            x = self.pre(o)
            if isinstance(x, Arr):
                self.fmt = x.fmt
            return ArrIs.at(self, ck, o, v)
    return W((rows, cols), Kf(i, j), region=mk_le(i - j))


# ---------------------------------------------------------------- histories
def att_c(ck, norm, two, n_=3, m_=2, X='X', Y='Y', d_=2, km=None):
    env, ip = ck.env, ck.ip
    if km is None:
        km = ip.call(env.get('base.KernelMatrix'), [env.kernel('k')], {'normalized': norm})
    kw = {'sample_two': env.arr(Y, (P(m_), P(d_)))} if two else {}
    ip.call(ip.getattr(km, 'attach_to'), [env.arr(X, (P(n_), P(d_)))], kw)
    return km


def op_table(ck):
    env, ip = ck.env, ck.ip
    T = {}
    for a in ('full', 'normed_km', 'centered', 'frob_norm', 'full_sparse', 'size', 'shape', 'num_samples'):
        T[a] = lambda k, a=a: attr(ip, k, a)
    for a in ('diagonal', 'center', 'normalize'):
        T[a + '()'] = lambda k, a=a: meth(ip, k, a)
    T['normalize(unknown)'] = lambda k: meth(ip, k, 'normalize', method='unknown')
    T['[:,:]'] = lambda k: M.getitem(ip, k, (ALL(), ALL()))
    T['[1,0]'] = lambda k: M.getitem(ip, k, (1, 0))
    T['[0,1]'] = lambda k: M.getitem(ip, k, (0, 1))
    T['[[0,1],:]'] = lambda k: M.getitem(ip, k, (PList([0, 1]), ALL()))
    T['[9,9]'] = lambda k: M.getitem(ip, k, (9, 9))
    T['len'] = lambda k: env.ev('len(k)', k=k)
    T['str'] = lambda k: env.ev('str(k)', k=k)
    T['repr'] = lambda k: env.ev('repr(k)', k=k)
    T['format'] = lambda k: env.ev('format(k)', k=k)
    T['get_attr'] = lambda k: meth(ip, k, 'get_attr', 'mark', 'none')
    T['attributes()'] = lambda k: env.ev('sorted(k.attributes())', k=k)
    T['set_attr'] = lambda k: meth(ip, k, 'set_attr', 'mark', 7)
    return T


def do(ip, op, k):
    """Perform one step; op may end in '!r': the kernel fails at evaluation r."""
    T, name = op
    base, _, r = name.partition('!')
    ip.fail_at = int(r) if r else None
    try:
        return T[base](k)
    finally:
        ip.fail_at = None


def quiet(ip, op, k):
    try:
        do(ip, op, k)
    except PyRaise:
        pass


def value_want(v):
    """Want describing an already computed value."""
    if isinstance(v, Arr):
        b = body_of(v)
        if isinstance(b, Unk):
            return None
        if v.dt.name == 'bool' and not isinstance(b, Poly):
            b = ind(b)
        return ArrIs(v.shape, b, dt=v.dt.name, fmt=v.fmt)
    p = scalar_of(v)
    if p is not None and p is not False:
        return ScIs(p)
    if isinstance(v, (Unk, RegArr)):
        return None
    k = vkey(v)
    return Pred(lambda o, k=k: o.kind == 'ok' and (None if isinstance(o.val, Unk) else vkey(o.val) == k), 'value %r' % (v,))


def spec_of(outs):
    """Ordered specification from the outcomes of a reference scenario."""
    spec = []
    for o in outs:
        if o.taint:
            return None
        c = mk_and(*o.conds) if o.conds else True
        if o.kind == 'raise':
            spec.append((c, Raises(o.val.cls.name.split('.')[-1])))
        else:
            w = value_want(o.val)
            if w is None:
                return None
            spec.append((c, w))
    return spec


def fresh_spec(ck, label, fn_):
    outs = ck.explore(label, fn_)
    return None if outs is None else spec_of(outs)


def fresh_specs(ck, label, setup, results):
    """Specifications of several results on the same reference state."""
    found = {}

    def capture(o):
        oc = o.conds
        if o.kind == 'raise':
            return
        k = o.val
        for name, f in results.items():
            for r in ck.ip.explore(lambda: f(k)):
                r.conds = oc + r.conds
                found.setdefault(name, []).append(r)
    if ck.explore(label, setup, capture=capture) is None:
        return {r: None for r in results}
    out = {}
    for r in results:
        out[r] = spec_of(found[r]) if r in found else None
        if out[r] is None:
            ck.undecided(label, 'no reference for ' + r)
    return out


RESULTS = ['full', 'normed_km', 'centered', 'frob_norm', 'diagonal()', '[:,:]', '[1,0]', '[[0,1],:]']
STEPS = ['full', 'normed_km', 'centered', 'frob_norm', 'full_sparse', 'diagonal()', 'center()', 'normalize()', '[:,:]', '[1,0]',
         '[0,1]', '[[0,1],:]', '[9,9]', 'normalize(unknown)']


def fails(steps):
    return [s + '!%d' % r for s in steps for r in (0, 1, 4)]


def states(ck, start, ops, depth, limit, label):
    """Breadth-first search of histories, one per distinct abstract object state."""
    env, ip = ck.env, ck.ip
    T = op_table(ck)
    seen = set()
    out = []
    trans = 0

    def keys(h, nexts):
        """State keys after h, and after each further step."""
        found = {None: []}
        for s in nexts:
            found[s] = []

        def run():
            k = start()
            for s in h:
                quiet(ip, (T, s), k)
            return k

        def capture(o):
            k, oc = o.val, o.conds
            if o.kind == 'raise':
                found[None].append((oc, 'raise'))
                return
            found[None].append((tuple(map(repr, oc)), repr(vkey(k))))
            for s in nexts:
                for r in ip.explore(lambda: quiet(ip, (T, s), k), capture=lambda r: repr(vkey(k))):
                    found[s].append((tuple(map(repr, oc + r.conds)), r.extra))
        if ck.explore('%s after %s' % (label, ' ; '.join(h)), run, capture=capture) is None:
            return {}
        return {s: frozenset(v) for s, v in found.items()}
    r = keys((), ops)
    if not r:
        return out, trans
    seen.add(r[None])
    out.append(())
    level = [((), r)]
    for dep in range(depth):
        nxt = []
        for h, r in level:
            for s in ops:
                trans += 1
                key = r.get(s)
                if not key or key in seen:
                    continue
                seen.add(key)
                out.append(h + (s,))
                if len(out) >= limit:
                    return out, trans
                if dep + 1 < depth:
                    nxt.append((h + (s,), keys(h + (s,), ops)))
        level = nxt
    return out, trans


def attachments(ck):
    return [(norm, two, a, b) for norm in (False, True) for two, a, b in ((False, 3, 0), (True, 3, 2), (True, 2, 3))
            if ck.tier != 'quick' or (two, a) != (True, 2) or not norm]


@rule('C02')
def c02(ck):
    """From every object state reachable by accesses (failing ones included),
    each result equals the result on a fresh attachment."""
    env, ip = ck.env, ck.ip
    T = op_table(ck)
    def concrete(norm, two, a, b):
        start = lambda: att_c(ck, norm, two, a, b)
        tag = 'KernelMatrix(normalized=%s) on %s' % (norm, '%d x %d samples' % (a, b) if two else '%d samples' % a)
        ref = fresh_specs(ck, tag + ' fresh', start, {r: (lambda k, r=r: do(ip, (T, r), k)) for r in RESULTS})
        ops = STEPS + fails(['full', 'normed_km', '[:,:]', 'diagonal()', 'centered', 'full_sparse', 'frob_norm', '[[0,1],:]'])
        hs, tr = states(ck, start, ops, 2 if ck.tier == 'quick' else 3, 60 if ck.tier == 'quick' else 300, tag)
        ck.notes.append('%s: %d states, %d transitions' % (tag, len(hs), tr))
        jobs = []
        for h in hs:
            if not h:
                continue

            def run(h=h):
                k = start()
                for s in h:
                    quiet(ip, (T, s), k)
                return k
            jobs.append(('%s after %s' % (tag, ' ; '.join(h)), run,
                         [(r, lambda k, r=r: do(ip, (T, r), k), ref[r]) for r in RESULTS if ref[r] is not None]))
        for j in jobs:
            ck.multi(*j)

    def symbolic(norm, two):
        # symbolic sizes, histories of one step
        start = lambda: attached(ck, norm, two)
        tag = 'KernelMatrix(normalized=%s) on %s' % (norm, 'n x m samples' if two else 'n samples')
        rs = [r for r in ('full', 'centered', 'frob_norm') if not (two and r == 'centered')]
        ref = fresh_specs(ck, tag + ' fresh', start, {r: (lambda k, r=r: do(ip, (T, r), k)) for r in rs})
        for s in ('full', 'full_sparse', 'center()', 'normed_km', '[:,:]', 'diagonal()'):
            if two and (s in ('center()', 'diagonal()') or (ck.tier == 'quick' and norm)):
                continue

            def run():
                k = start()
                quiet(ip, (T, s), k)
                return k
            ck.multi('%s after %s' % (tag, s), run, [(r, lambda k, r=r: do(ip, (T, r), k), ref[r]) for r in rs if ref[r] is not None])
    with finite(ip):
        ck.fork([lambda x=x: concrete(*x) for x in sorted(attachments(ck), reverse=True)] +
                [lambda x=x: symbolic(*x) for x in ((False, False), (True, False), (False, True), (True, True))])


# ---------------------------------------------------------------- C03
@rule('C03')
def c03(ck):
    """Results after re-attaching equal those of a new object; a rejected attach
    changes nothing."""
    env, ip = ck.env, ck.ip
    T = op_table(ck)
    RES = RESULTS + ['size', 'shape', 'num_samples', 'len', 'str', 'get_attr', 'attributes()', 'full_sparse']
    DIRTY = [('full', 'centered', 'frob_norm', 'normed_km', 'set_attr'), ('diagonal()', '[0,1]'), ('normalize()',), ('center()',),
             ('full_sparse',), ('[:,:]',), ('set_attr',), ('full!1',), ()]
    shapes = [(False, 3, 0), (True, 3, 2), (True, 2, 3), (False, 2, 0)]
    if ck.tier == 'quick':
        pairs = [((False, 3, 0), (False, 3, 0)), ((False, 3, 0), (False, 2, 0)), ((False, 3, 0), (True, 3, 2)), ((True, 3, 2), (False, 3, 0)),
                 ((True, 3, 2), (True, 3, 2)), ((True, 3, 2), (True, 2, 3)), ((False, 2, 0), (False, 3, 0))]
    else:
        pairs = [(x, y) for x in shapes for y in shapes]
    def again(norm, s2):
        ref = fresh_specs(ck, 'fresh', lambda: att_c(ck, norm, s2[0], s2[1], s2[2], 'U', 'V'),
                          {r: (lambda k, r=r: do(ip, (T, r), k)) for r in RES})
        for s1, s2_ in pairs:
            if s2_ != s2:
                continue
            for dirty in DIRTY:
                def run():
                    k = att_c(ck, norm, s1[0], s1[1], s1[2])
                    for s in dirty:
                        quiet(ip, (T, s), k)
                    att_c(ck, norm, s2[0], s2[1], s2[2], 'U', 'V', km=k)
                    return k
                ck.multi('KernelMatrix(normalized=%s) %s attached again to %s after %s' % (
                    norm, sh(s1), sh(s2), ';'.join(dirty) or 'nothing'), run,
                    [(r, lambda k, r=r: do(ip, (T, r), k), ref[r]) for r in RES if ref[r] is not None])

    # the same array objects, changed in place or used again in another role
    a1 = lambda v: {'A': env.arr('A', (P(3), P(2))), 'B': env.arr('B', (P(3), P(2))), 'C': env.arr('C', (P(2), P(2)))}[v]
    SAME = [('A', 'A'), ('A', 'AA'), ('AA', 'A'), ('AB', 'BA'), ('AB', 'A'), ('AB', 'B'), ('A', 'AB'), ('B', 'AB'), ('AC', 'A'), ('AC', 'C'), ('AB', 'AB')]

    def same(norm, first, then):
        def put(k, arrs, which):
            kw = {'sample_two': arrs[which[1]]} if len(which) > 1 else {}
            ip.call(ip.getattr(k, 'attach_to'), [arrs[which[0]]], kw)

        def change(arrs, which):
            for v in sorted(set(which)):
                M.setitem(ip, arrs[v], (ALL(), ALL()), env.arr(v + 'new', arrs[v].shape))
        for chg in ('', first, then):
            if chg and len(chg) > 1 and chg == first and set(chg) == set(then):
                continue

            def ref_():
                arrs = {v: a1(v) for v in set(first + then)}
                change(arrs, chg)
                k = ip.call(env.get('base.KernelMatrix'), [env.kernel('k')], {'normalized': norm})
                put(k, arrs, then)
                return k
            ref = fresh_specs(ck, 'fresh', ref_, {r: (lambda k, r=r: do(ip, (T, r), k)) for r in RES})
            for dirty in (('full', 'frob_norm', 'normed_km'), ('diagonal()', '[0,1]'), ('set_attr',), ()):
                def run():
                    arrs = {v: a1(v) for v in set(first + then)}
                    k = ip.call(env.get('base.KernelMatrix'), [env.kernel('k')], {'normalized': norm})
                    put(k, arrs, first)
                    for s in dirty:
                        quiet(ip, (T, s), k)
                    change(arrs, chg)
                    put(k, arrs, then)
                    return k
                ck.multi('KernelMatrix(normalized=%s) attached to %s, used for %s, %s attached to %s' % (
                    norm, ', '.join(first), ';'.join(dirty) or 'nothing',
                    'then (after %s changed in place)' % ', '.join(sorted(set(chg))) if chg else 'then', ', '.join(then)), run,
                    [(r, lambda k, r=r: do(ip, (T, r), k), ref[r]) for r in RES if ref[r] is not None])

    # rejected attachments
    bads = {'dimensionalities differ': lambda k: meth(ip, k, 'attach_to', env.arr('U', (P(2), P(2))), sample_two=env.arr('V', (P(2), P(3)))),
            'dimensionalities differ, same shape': lambda k: meth(ip, k, 'attach_to', env.arr('U', (P(3), P(2))), sample_two=env.arr('V', (P(2), P(5)))),
            'first sample is a vector': lambda k: meth(ip, k, 'attach_to', env.arr('U', (P(4),))),
            'second sample is a vector': lambda k: meth(ip, k, 'attach_to', env.arr('U', (P(3), P(2))), sample_two=env.arr('V', (P(4),))),
            'second sample is a string': lambda k: meth(ip, k, 'attach_to', env.arr('U', (P(2), P(2))), sample_two='x')}

    def rejected(norm, s1):
        for dirty in DIRTY:
            if '!' in ''.join(dirty):
                continue

            def base():
                k = att_c(ck, norm, s1[0], s1[1], s1[2])
                for s in dirty:
                    quiet(ip, (T, s), k)
                return k
            lab = 'KernelMatrix(normalized=%s) %s used for %s' % (norm, sh(s1), ';'.join(dirty) or 'nothing')
            ref = fresh_specs(ck, lab, base, {r: (lambda k, r=r: do(ip, (T, r), k)) for r in RES})
            for bn, bad in bads.items():
                if ck.tier == 'quick' and dirty not in (DIRTY[0], ()) and bn != 'dimensionalities differ':
                    continue

                def run():
                    k = base()
                    try:
                        bad(k)
                    except PyRaise:
                        return k
                    ip.throw('NotImplementedError', 'accepted')
                ck.multi('%s, rejected attach (%s)' % (lab, bn), run,
                         [(r, lambda k, r=r: do(ip, (T, r), k), ref[r]) for r in RES if ref[r] is not None])
    second = []
    for _, y in pairs:
        if y not in second:
            second.append(y)
    with finite(ip):
        ck.fork([lambda x=x, nm=nm: rejected(nm, x) for nm in (True, False) for x in (shapes[:3] if ck.tier == 'quick' else shapes)] +
                [lambda x=x, nm=nm: again(nm, x) for nm in (True, False) for x in second] +
                [lambda x=x, nm=nm: same(nm, *x) for nm in (True, False) for x in SAME])


def sh(s):
    return '%d x %d' % (s[1], s[2]) if s[0] else '%d' % s[1]


# ---------------------------------------------------------------- C04
@rule('C04')
def c04(ck):
    """Kernel evaluations are counted on every path of access sequences."""
    env, ip = ck.env, ck.ip
    T = op_table(ck)
    cheap = ['size', 'shape', 'num_samples', 'len', 'str', 'repr', 'format', 'get_attr', 'attributes()', 'set_attr', '[9,9]']
    def concrete(norm, two, a, b):
        cols = b if two else a
        tag = 'KernelMatrix(normalized=%s) on %s' % (norm, '%d x %d samples' % (a, b) if two else '%d samples' % a)
        start = lambda: att_c(ck, norm, two, a, b)
        allp = {(x, y) for x in range(a) for y in range(cols)}
        if not two:
            allp = {tuple(sorted(p)) for p in allp}
        only = {'diagonal()': {(x, x) for x in range(min(a, cols))}, '[1,0]': {(1, 0) if two else (0, 1)}, '[0,1]': {(0, 1)},
                '[[0,1],:]': {p for p in allp if p[0] in (0, 1) or (not two and p[1] in (0, 1))}}
        for c in cheap:
            only[c] = set()
        seqs = [(s,) for s in STEPS + cheap] + [(s, t) for s in STEPS for t in STEPS]
        if ck.tier != 'quick':
            seqs += [(s, t, u) for s in STEPS for t in STEPS for u in ('full', '[:,:]', '[1,0]', 'frob_norm')]
        seqs += [(s, t, 'full') for s in ('diagonal()', '[1,0]', '[[0,1],:]') for t in ('[0,1]', 'full_sparse', 'centered')]
        seqs += [(s + '!1', s) for s in ('full', '[:,:]', 'full_sparse', 'frob_norm')]
        for seq in seqs:
            def run():
                k = start()
                for s in seq:
                    quiet(ip, (T, s), k)
                return None
            lab = '%s: %s' % (tag, ' ; '.join(seq))
            outs = ck.explore(lab, run)
            if outs is None:
                continue
            pv = un = 0
            for o in outs:
                if o.taint:
                    ck.undecided(lab, o.taint[0])
                    un += 1
                    continue
                cnt, self_ev, unk = kevents(o, two)
                if unk:
                    ck.undecided(lab, 'kernel evaluation of unknown rows')
                    un += 1
                    continue
                twice = [p for p, c in cnt.items() if c > 1]
                if twice:
                    ck.violation(lab, 'the kernel is evaluated %d times for samples %s' % (cnt[twice[0]], twice[0]), o)
                    continue
                if len(seq) == 1 and seq[0] in only:
                    extra = set(cnt) - only[seq[0]]
                    if extra or (self_ev and not two):
                        ck.violation(lab, 'evaluates the kernel for samples %s that were not requested' % (sorted(extra)[:3],), o)
                        continue
                    if self_ev:
                        ck.violation(lab, 'evaluates the kernel for pairs that were not requested', o)
                        continue
                pv += 1
            ck.obl.append((lab, len(outs), pv, 0, un))
        # attaching evaluates nothing, and re-attaching allows evaluation again
        outs = ck.explore(tag + ' attach', lambda: start() and None)
        if outs is not None:
            for o in outs:
                if any(e.kind == 'kernel' for e in o.events):
                    ck.violation(tag + ' attach', 'attaching a sample evaluates the kernel', o)
            ck.obl.append((tag + ' attach', len(outs), len(outs), 0, 0))
    with finite(ip):
        ck.fork([lambda x=x: concrete(*x) for x in sorted(attachments(ck), reverse=True)])
        # symbolic sizes: partial accesses
        for two in (False, True):
            for norm in (False, True):
                st = lambda: attached(ck, norm, two)
                for name, f in (('attach', lambda k: None), ('len', lambda k: env.ev('len(k)', k=k)), ('str', lambda k: env.ev('str(k)', k=k)),
                                ('shape', lambda k: attr(ip, k, 'shape')), ('size', lambda k: attr(ip, k, 'size')),
                                ('num_samples', lambda k: attr(ip, k, 'num_samples'))):
                    outs = ck.explore(name, lambda: f(st()))
                    bad = [o for o in outs or () if any(e.kind == 'kernel' for e in o.events)]
                    if bad:
                        ck.violation('%s on n samples' % name, 'evaluates the kernel', bad[0])
                    elif outs:
                        ck.obl.append(('%s on symbolic sizes evaluates nothing' % name, len(outs), len(outs), 0, 0))


def kevents(o, two):
    cnt, self_ev = {}, 0
    for e in o.events:
        if e.kind != 'kernel':
            continue
        if e.vars or e.cond is not True:
            return {}, 0, True
        x, y = e.data[1], e.data[2]
        r1, r2 = M.rowkey(x), M.rowkey(y)
        if r1[0] != 'row' or r2[0] != 'row':
            return {}, 0, True
        a, b = r1[2].const(), r2[2].const()
        if a is None or b is None:
            return {}, 0, True
        a, b = int(a), int(b)
        if two:
            if r1[1] == r2[1]:
                self_ev += 1
                continue
            p = (a, b) if r1[1] == ('X',) else (b, a)
        else:
            p = tuple(sorted((a, b)))
        cnt[p] = cnt.get(p, 0) + 1
    return cnt, self_ev, False


# ---------------------------------------------------------------- C07
def fl(x):
    return Sc(P(F(x)), 'float')


def bad_selectors():
    """Selectors that are never valid, whatever the size of the dimension."""
    return [('1.0', lambda: fl(1.0)), ('0.5', lambda: fl(0.5)), ("'0'", lambda: '0'), ("'ab'", lambda: 'ab'), ("''", lambda: ''), ('None', lambda: None),
            ('[]', lambda: PList([])), ('()', lambda: ()), ('[0.5]', lambda: PList([fl(0.5)])), ('[0, 0.5]', lambda: PList([0, fl(0.5)])),
            ('[0.0]', lambda: PList([fl(0)])), ('[None]', lambda: PList([None])), ("['0']", lambda: PList(['0'])),
            ("[0, 'a']", lambda: PList([0, 'a'])), ('[[0]]', lambda: PList([PList([0])])), ('set()', lambda: PList([], kind='set')),
            ('float array', lambda: Arr((P(1),), ZERO, F8)), ('-1', lambda: -1), ('[-1]', lambda: PList([-1])), ('[0, -1]', lambda: PList([0, -1])),
            ('0:0', lambda: SliceV(0, 0, None)), ('1:1', lambda: SliceV(1, 1, None)), ('numpy float', lambda: Sc(ONE, 'float'))]


@rule('C07')
def c07(ck):
    """Validity of every kind of index expression, with symbolic sizes."""
    env, ip = ck.env, ck.ip
    a, b, c = isym('a'), isym('b'), isym('c')
    BAD_ = Raises('KMAccessError')
    OK1 = Returns()

    def const():
        env.pos()
        return ip.call(env.get('base.ConstantKernelMatrix'), [isc(n)], {'value': Sc(sym('val'), 'float')})
    kinds = [('KernelMatrix(one sample)', lambda: attached(ck, False, False), n, n, True),
             ('KernelMatrix(two samples)', lambda: attached(ck, False, True), n, m, True),
             ('KernelMatrix(one sample, normalized)', lambda: attached(ck, True, False), n, n, True),
             ('KernelMatrix(two samples, normalized)', lambda: attached(ck, True, True), n, m, True),
             ('ConstantKernelMatrix', const, n, n, False)]
    vals = {'ints': {'a': (-3, 6), 'b': (-3, 6), 'c': (-3, 6), 'lenu': (0, 3), 'lenw': (0, 3)}}

    def kind(nm, start, rows, cols, lin):
        def case(lab, ix, spec):
            ck.case('%s[%s]' % (nm, lab), lambda: M.getitem(ip, start(), ix()), spec, vals=vals)
        case('a, b', lambda: (isc(a), isc(b)), [(mk_and(inside(a, rows), inside(b, cols)), OK1), (True, BAD_)])
        case('a, :', lambda: (isc(a), ALL()), [(inside(a, rows), OK1), (True, BAD_)])
        case(':, b', lambda: (ALL(), isc(b)), [(inside(b, cols), OK1), (True, BAD_)])
        case('0, b', lambda: (0, isc(b)), [(inside(b, cols), OK1), (True, BAD_)])
        case('a, 0', lambda: (isc(a), 0), [(inside(a, rows), OK1), (True, BAD_)])
        case(':, :', lambda: (ALL(), ALL()), OK1)
        for lab, ix, size in (('a:b, 0', lambda: (SliceV(isc(a), isc(b), None), 0), rows), ('0, a:b', lambda: (0, SliceV(isc(a), isc(b), None)), cols)):
            case(lab, ix, [(mk_or(mk_lt(a), mk_lt(b)), Anything()), (mk_and(mk_lt(a - b), mk_lt(a - size)), OK1), (True, BAD_)])
        case('a:, 0', lambda: (SliceV(isc(a), None, None), 0), [(mk_lt(a), Anything()), (mk_lt(a - rows), OK1), (True, BAD_)])
        case('0, :b', lambda: (0, SliceV(None, isc(b), None)), [(mk_lt(b), Anything()), (mk_lt(-b), OK1), (True, BAD_)])
        case('::-1, ::2', lambda: (SliceV(None, None, -1), SliceV(None, None, 2)), OK1)
        both = mk_and(inside(a, rows), inside(b, rows))
        bothc = mk_and(inside(a, cols), inside(b, cols))
        case('[a, b], 0', lambda: (PList([isc(a), isc(b)]), 0), [(both, OK1), (True, BAD_)])
        case('0, [a, b]', lambda: (0, PList([isc(a), isc(b)])), [(bothc, OK1), (True, BAD_)])
        case('(a, b), :', lambda: ((isc(a), isc(b)), ALL()), [(both, OK1), (True, BAD_)])
        case('{a, b}, 0', lambda: (PList([isc(a), isc(b)], kind='set'), 0), [(both, OK1), (True, BAD_)])
        case('[a], [b]', lambda: (PList([isc(a)]), PList([isc(b)])), [(mk_and(inside(a, rows), inside(b, cols)), OK1), (True, BAD_)])
        for lab, ix, size in (('collection, 0', lambda: (intlist('u'), 0), rows), ('0, collection', lambda: (0, intlist('u')), cols),
                              ('array of integers, 0', lambda: (env.arr('iu', (isym('lenu'),), I8), 0), rows)):
            el_ = at_int if 'array' not in lab else (lambda nm_, q: A(('idx', ('iu',), (P(q),))))
            good = mk_and(mk_lt(-isym('lenu')), mk_not(exists(isym('lenu'), lambda q: mk_not(inside(el_('u', q), size)))))

            def run(ix=ix):
                k = start()
                ip.assume(mk_le(-isym('lenu')))
                return M.getitem(ip, k, ix())
            ck.case('%s[%s]' % (nm, lab), run, [(good, OK1), (True, BAD_)], vals=vals)
        for lab, bad in bad_selectors():
            case(lab + ', 0', lambda: (bad(), 0), BAD_)
            case('0, ' + lab, lambda: (0, bad()), BAD_)
            if ck.tier != 'quick' or 'normalized' not in nm:
                case(':, ' + lab, lambda: (ALL(), bad()), BAD_)
        for lab, ix in (("'ab'", lambda: 'ab'), ("'a'", lambda: 'a'), ('None', lambda: None), ('0.5', lambda: fl(0.5)), ('1.0', lambda: fl(1.0)),
                        (':', lambda: ALL()), ('(0,)', lambda: (0,)), ('0, 0, 0', lambda: (0, 0, 0)), ('()', lambda: ()),
                        ('[0, 0, 0]', lambda: PList([0, 0, 0])), ('[]', lambda: PList([])), (':, :, :', lambda: (ALL(), ALL(), ALL()))):
            case(lab, ix, BAD_)
        if lin:
            case('a', lambda: isc(a), [(inside(a, rows * cols), OK1), (True, BAD_)])
        else:
            case('a', lambda: isc(a), BAD_)

    def kind_c(nm, start, rows, cols):
        """Constant shapes: every pair of positions around the borders."""
        for x in (-rows, -1, 0, 1, rows - 1, rows, rows + cols, max(rows, cols)):
            for y in (-cols, -1, 0, cols - 1, cols, max(rows, cols), min(rows, cols)):
                good = 0 <= x < rows and 0 <= y < cols
                ck.case('%s[%d, %d]' % (nm, x, y), lambda: M.getitem(ip, start(), (x, y)), OK1 if good else BAD_)
    jobs = [lambda k=k: kind(*k) for k in kinds]
    for two, r_, c_ in ((False, 3, 3), (True, 3, 2), (True, 2, 3)):
        jobs.append(lambda two=two, r_=r_, c_=c_: kind_c('KernelMatrix(%d x %d)' % (r_, c_), lambda: att_c(ck, False, two, r_, c_), r_, c_))
    with finite(ip):
        ck.fork(jobs)


# ---------------------------------------------------------------- C20
@rule('C20')
def c20(ck):
    """Precomputed matrices are validated and represent the given matrix;
    constant matrices represent the constant."""
    env, ip = ck.env, ck.ip
    PC, CK = env.get('base.KernelMatrixPrecomputed'), env.get('base.ConstantKernelMatrix')
    a, b = isym('a'), isym('b')
    V = Raises('ValueError')
    asym = exists2(n, n, lambda p, q: mk_not(('p', 'close') + tuple(sorted((el('A', p, q), el('A', q, p)), key=rk))))
    exact = mk_not(exists2(n, n, lambda p, q: mk_not(mk_eq(el('A', p, q) - el('A', q, p)))))
    far = exists2(n, n, lambda p, q: mk_lt(ONE + fn('abs', el('A', p, q)) + fn('abs', el('A', q, p)) - P(3) * fn('abs', el('A', p, q) - el('A', q, p))))
    for dt in (F8, I8):
        sp = [(far, V), (exact, Returns()), (True, Anything())]
        mk = lambda: (env.pos(), ip.call(PC, [env.arr('A', (n, n), dt)], {}))[1]
        ck.case('KernelMatrixPrecomputed(%s n x n)' % dt.name, mk, sp)
        ok = lambda w: [(far, V), (exact, w), (True, Anything())]
        A_ = ArrIs((n, n), el('A', i, j))
        ck.case('KernelMatrixPrecomputed(%s).full' % dt.name, lambda: attr(ip, mk(), 'full'), ok(A_))
        ck.case('KernelMatrixPrecomputed(%s).diag' % dt.name, lambda: attr(ip, mk(), 'diag'), ok(ArrIs((n,), el('A', i, i))))
        ck.case('KernelMatrixPrecomputed(%s).size' % dt.name, lambda: attr(ip, mk(), 'size'), ok(ScIs(n)))
        ck.case('KernelMatrixPrecomputed(%s).num_samples' % dt.name, lambda: attr(ip, mk(), 'num_samples'), ok(ScIs(n)))
        ck.case('len(KernelMatrixPrecomputed(%s))' % dt.name, lambda: env.ev('len(k)', k=mk()), ok(ScIs(n)))
    # symmetric by construction, so that items need no case distinction
    gram = lambda: Arr((n, n), el('g', i) * el('g', j), F8, owner='A')
    g = lambda p, q: el('g', p) * el('g', q)
    mk = lambda *w, **kw: (env.pos(), ip.call(PC, [gram()] + list(w), kw))[1]
    with finite(ip):
        for lab, f, w in (('full', lambda k: attr(ip, k, 'full'), ArrIs((n, n), g(i, j))), ('diag', lambda k: attr(ip, k, 'diag'), ArrIs((n,), g(i, i))),
                          ('size', lambda k: attr(ip, k, 'size'), ScIs(n)), ('[:, :]', lambda k: M.getitem(ip, k, (ALL(), ALL())), ArrIs((n, n), g(i, j)))):
            ck.case('KernelMatrixPrecomputed(symmetric).' + lab, lambda: f(mk()), w)
        item = lambda ix: (lambda: M.getitem(ip, mk(), ix()))
        vals = {'ints': {'a': (-8, 8), 'b': (-8, 8)}}
        okk = mk_and(inside(a, n), inside(b, n))
        ck.case('KernelMatrixPrecomputed[a, b]', item(lambda: (isc(a), isc(b))), [(okk, ScIs(g(a, b))), (True, Anything())], vals=vals)
        ck.case('KernelMatrixPrecomputed[a]', item(lambda: isc(a)), [(inside(a, n), ArrIs((n,), g(a, i))), (True, Anything())], vals=vals)
        for lab, ix in (("'ab'", lambda: 'ab'), ('0.5', lambda: fl(0.5)), ('0, 0, 0', lambda: (0, 0, 0)), ("'a', 0", lambda: ('a', 0)), ('0, 0.5', lambda: (0, fl(0.5))),
                        ('n, 0', lambda: (isc(n), 0)), ('0, n', lambda: (0, isc(n)))):
            ck.case('KernelMatrixPrecomputed[%s]' % lab, item(ix), Raises('KMAccessError'))
        for nm, w in ((None, 'Precomputed'), ('abc', 'abc')):
            ck.case('KernelMatrixPrecomputed(name=%r).name' % nm, lambda: attr(ip, mk(name=nm), 'name'), Pred(lambda o: o.kind == 'ok' and o.val == w, 'name %r' % w))
        # rejected shapes
        for lab, mkA in (('n x m', None), ('vector', lambda: env.arr('A', (n,))), ('3-d', lambda: env.arr('A', (n, n, n))), ('scalar', lambda: fl(3)),
                         ('list vector', lambda: PList([1, 2])), ('list 1 x 2', lambda: PList([PList([1, 2])])), ('list 2 x 1', lambda: PList([PList([1]), PList([1])])),
                         ('row of equal entries', lambda: Arr((P(1), n + 1), sym('v'), F8)), ('column of equal entries', lambda: Arr((n + 1, P(1)), sym('v'), F8)),
                         ('asymmetric list', lambda: PList([PList([1, 2]), PList([3, 1])])), ('constant n x (n+1)', lambda: Arr((n, n + 1), sym('v'), F8)),
                         ('negated mirror', lambda: Arr((P(2), P(2)), (i - j) * P(5), F8))):
            if mkA is None:
                ck.case('KernelMatrixPrecomputed(n x m)', lambda: (env.pos(), ip.call(PC, [env.arr('A', (n, m))], {}))[1],
                        [(mk_eq(n - m), Anything()), (True, V)])
                ck.case('KernelMatrixPrecomputed(constant n x m)', lambda: (env.pos(), ip.call(PC, [Arr((n, m), sym('v'), F8)], {}))[1],
                        [(mk_eq(n - m), Returns()), (True, V)])
                continue
            ck.case('KernelMatrixPrecomputed(%s)' % lab, lambda: (env.pos(), ip.call(PC, [mkA()], {}))[1], V)
        ck.case('KernelMatrixPrecomputed(symmetric list)', lambda: attr(ip, ip.call(PC, [PList([PList([1, 2]), PList([2, 4])])], {}), 'full'),
                ArrIs((2, 2), ONE + i + j + i * j + ZERO))
    cx = lambda: Arr((n, n), el('g', i) * el('g', j), Dt('complex128'), owner='A')
    ck.case('KernelMatrixPrecomputed(complex)', lambda: (env.pos(), ip.call(PC, [cx()], {}))[1],
            [(exists2(n, n, lambda p, q: mk_not(mk_eq(fn('imag', g(p, q))))), V), (True, Anything())])
    # constant kernel matrices
    v = sym('val')

    def cm(**kw):
        env.pos()
        return ip.call(CK, [isc(n)], dict({'value': Sc(v, 'float')}, **kw))
    hist = [('', lambda k: None), (' after full', lambda k: attr(ip, k, 'full')), (' after [0, 0]', lambda k: M.getitem(ip, k, (0, 0)))]
    for hl, h in hist:
        for lab, f, w in (('full', lambda k: attr(ip, k, 'full'), ArrIs((n, n), v, dt='float64')), ('diag', lambda k: attr(ip, k, 'diag'), ArrIs((n,), v)),
                          ('size', lambda k: attr(ip, k, 'size'), ScIs(n)), ('num_samples', lambda k: attr(ip, k, 'num_samples'), ScIs(n)),
                          ('len', lambda k: env.ev('len(k)', k=k), ScIs(n)),
                          ('shape[0]', lambda k: env.ev('k.shape[0]', k=k), ScIs(n)), ('shape[1]', lambda k: env.ev('k.shape[1]', k=k), ScIs(n)),
                          ('len(shape)', lambda k: env.ev('len(k.shape)', k=k), ScIs(2))):
            def run():
                k = cm()
                h(k)
                return f(k)
            ck.case('ConstantKernelMatrix.%s%s' % (lab, hl), run, w)
    ck.case('ConstantKernelMatrix(default).full', lambda: (env.pos(), attr(ip, ip.call(CK, [isc(n)], {}), 'full'))[1], ArrIs((n, n), ZERO, dt='float64'))
    ck.case('ConstantKernelMatrix(dtype=int).full', lambda: attr(ip, cm(value=7, dtype='int64'), 'full'), ArrIs((n, n), P(7), dt='int64'))
    ck.case('ConstantKernelMatrix(dtype=int).diag', lambda: attr(ip, cm(value=7, dtype='int64'), 'diag'), ArrIs((n,), P(7), dt='int64'))
    for lab, ix, good, r_, c_ in (
            ('a, b', lambda: (isc(a), isc(b)), mk_and(inside(a, n), inside(b, n)), ONE, ONE),
            (':, b', lambda: (ALL(), isc(b)), inside(b, n), n, ONE), ('a, :', lambda: (isc(a), ALL()), inside(a, n), ONE, n),
            (':, :', lambda: (ALL(), ALL()), True, n, n), ('[a, b], 0', lambda: (PList([isc(a), isc(b)]), 0), mk_and(inside(a, n), inside(b, n), mk_not(mk_eq(a - b))), P(2), ONE),
            ('[a, a], [0, 0]', lambda: (PList([isc(a), isc(a)]), PList([0, 0])), inside(a, n), ONE, ONE),
            ('a:b, :', lambda: (SliceV(isc(a), isc(b), None), ALL()), mk_and(mk_le(-a), mk_lt(a - b), mk_le(b - n)), b - a, n),
            ('0, a:b', lambda: (0, SliceV(isc(a), isc(b), None)), mk_and(mk_le(-a), mk_lt(a - b), mk_le(b - n)), ONE, b - a)):
        ck.case('ConstantKernelMatrix[%s]' % lab, lambda: M.getitem(ip, cm(), ix()), [(good, ArrIs((r_, c_), v, dt='float64')), (True, Anything())],
                vals={'ints': {'a': (-1, 5), 'b': (-1, 5)}})
        ck.case('ConstantKernelMatrix(dtype=int)[%s]' % lab, lambda: M.getitem(ip, cm(value=7, dtype='int64'), ix()),
                [(good, ArrIs((r_, c_), P(7), dt='int64')), (True, Anything())], vals={'ints': {'a': (-1, 5), 'b': (-1, 5)}})


def exists2(h1, h2, f):
    p, q = fresh_q(), fresh_q()
    return mk_any([(p, P(h1)), (q, P(h2))], f(A(p), A(q)))


# ---------------------------------------------------------------- C25
class Warned(Want):
    def __init__(self, yes, cat='KernelMethodsWarning'):
        self.yes, self.cat = yes, cat

    def static(self, ck, o):
        r = any(e.kind == 'warn' and e.cond is True and not e.vars and
                (not self.yes or (isinstance(e.data[0], TypeV) and self.cat in [c.name.split('.')[-1] for c in e.data[0].mro]))
                for e in o.events)
        return r if self.yes else not any(e.kind == 'warn' for e in o.events)

    def at(self, ck, o, v):
        if self.static(ck, o):
            return None
        if self.yes:
            return 'no %s is issued although values are not finite' % self.cat
        return 'a warning is issued although all values are finite'

    def __str__(self):
        return 'a %s' % self.cat if self.yes else 'no warning'


def nf(p):
    return ('p', 'notfinite', P(p))


@rule('C25')
def c25(ck):
    env, ip = ck.env, ck.ip

    def km_cases(norm, two):
        Kf = K2 if two else K1
        cols = m if two else n
        nk = lambda p, q: Kf(p, q) / (sqrt(K1(p, p)) * sqrt(kern('k', ('row', ('Y' if two else 'X',), P(q)), ('row', ('Y' if two else 'X',), P(q)))))
        raw = exists2(n, cols, lambda p, q: nf(Kf(p, q)))
        up = exists2(n, cols, lambda p, q: mk_and(mk_le(p - q), nf(Kf(p, q))))
        nrm = exists2(n, cols, lambda p, q: nf(nk(p, q)))
        if not two:
            # k(i,i)/(sqrt k(i,i))^2 is not computed by every right implementation
            nrm = exists2(n, cols, lambda p, q: mk_and(mk_not(mk_eq(p - q)), nf(nk(p, q))))
        nrm_d = exists2(n, cols, lambda p, q: nf(nk(p, q)))
        tag = 'KernelMatrix(normalized=%s) on %s' % (norm, 'two samples' if two else 'one sample')

        def spec(conds):
            def s(o):
                if o.kind == 'raise':
                    nm_ = o.val.cls.name.split('.')[-1]
                    if nm_ not in ('KMNormError',):
                        return Anything()
                    return [(raw, Warned(True)), (True, Warned(False))]
                return [(c, Warned(True)) for c in conds] + \
                    [(nrm_d, Anything())] * (nrm in conds) + [(True, Warned(False))]
            return s
        cases = [('full', lambda k: attr(ip, k, 'full'), (raw, nrm) if norm else (raw,)),
                 ('normed_km', lambda k: attr(ip, k, 'normed_km'), (raw, nrm)),
                 ('full_sparse', lambda k: attr(ip, k, 'full_sparse'), (raw, nrm) if norm else (up,)),
                 ('[:, :]', lambda k: M.getitem(ip, k, (ALL(), ALL())), (raw,)),
                 ('frob_norm', lambda k: attr(ip, k, 'frob_norm'), (raw,)),
                 ('normalize()', lambda k: meth(ip, k, 'normalize'), (raw, nrm))]
        if not two:
            cases += [('centered', lambda k: attr(ip, k, 'centered'), (raw,)), ('center()', lambda k: meth(ip, k, 'center'), (raw,))]
        for lab, f, conds in cases:
            ck.case('%s: %s' % (tag, lab), lambda: f(attached(ck, norm, two)), spec(conds))
        # access after other accesses: what is computed later is reported then
        T = op_table(ck)
        for first in ('full', '[1,0]', 'diagonal()', 'full_sparse', '[9,9]'):
            if two and first == 'diagonal()':
                continue

            def late():
                k = attached(ck, False, two)
                quiet(ip, (T, first), k)
                ip.put(ip.st, 'ev', ())
                return attr(ip, k, 'normed_km')
            ck.case('KernelMatrix on %s: normed_km after %s' % ('two samples' if two else 'one sample', first), late,
                    lambda o: Anything() if o.kind == 'raise' else [(nrm, Warned(True)), (True, Anything())])
            if first == 'full':
                continue

            def late2():
                k = attached(ck, False, two)
                quiet(ip, (T, first), k)
                ip.put(ip.st, 'ev', ())
                return attr(ip, k, 'full')
            ck.case('KernelMatrix on %s: full after %s' % ('two samples' if two else 'one sample', first), late2,
                    lambda o: Anything() if o.kind == 'raise' else [(raw, Warned(True)), (True, Warned(False))])

        def again():
            k = attached(ck, norm, two)
            quiet(ip, (T, 'full'), k)
            kw = {'sample_two': env.arr('Y', (M_, D))} if two else {}
            ip.put(ip.st, 'ev', ())
            ip.call(ip.getattr(k, 'attach_to'), [env.arr('X', (N, D))], kw)
            return attr(ip, k, 'full')
        ck.case('%s: full after attaching again' % tag, again, spec((raw, nrm) if norm else (raw,)))

    def concrete(two, a, b):
        # entry by entry: one non-finite value is enough
        cols = b if two else a
        Kf = K2 if two else K1
        raw = mk_or(*[nf(Kf(p, q)) for p in range(a) for q in range(cols)])
        ck.case('KernelMatrix on %s: full' % sh((two, a, b)), lambda: attr(ip, att_c(ck, False, two, a, b), 'full'),
                [(raw, Warned(True)), (True, Warned(False))])
        up = mk_or(*[nf(Kf(p, q)) for p in range(a) for q in range(p, cols)])
        ck.case('KernelMatrix on %s: full_sparse' % sh((two, a, b)), lambda: attr(ip, att_c(ck, False, two, a, b), 'full_sparse'),
                [(up, Warned(True)), (True, Warned(False))])

    def ops():
        nk = lambda p, q: el('A', p, q) / (sqrt(el('A', p, p)) * sqrt(el('A', q, q)))
        nrm = exists2(n, n, lambda p, q: nf(nk(p, q)))
        ck.case('normalize_km', lambda: (env.pos(), call(ip, env.get('operations.normalize_km'), env.arr('A', (n, n))))[1],
                lambda o: Anything() if o.kind == 'raise' else [(nrm, Warned(True, 'Warning')), (True, Warned(False))])
        f = env.get('utils.contains_nan_inf')
        for fmt in ('nd', 'lil', 'csr', 'coo'):
            def arr():
                r = env.arr('A', (n, m))
                r.fmt = fmt
                return r
            ck.case('contains_nan_inf(%s)' % fmt, lambda: (env.pos(), call(ip, f, arr()))[1], BoolIs(exists2(n, m, lambda p, q: nf(el('A', p, q)))))
        ck.case('contains_nan_inf(vector)', lambda: (env.pos(), call(ip, f, env.arr('A', (n,))))[1], BoolIs(exists(n, lambda p: nf(el('A', p)))))
        # exception hierarchy
        base = env.get('config.KernelMethodsException')
        mod = ip.mods['kernelmethods.config']
        need = {'KMAccessError', 'KMNormError', 'KMSetAdditionError', 'Chi2NegativeValuesException'}
        okc = 0
        T_ = M.TYPES
        for nm_ in sorted(mod.s):
            c = mod.s[nm_]
            if isinstance(c, TypeV) and c.issub(T_['Exception']) and not c.issub(T_['Warning']) and c.name not in ('Exception',) \
                    and not (c.name in T_ and T_[c.name] is c):
                if not c.issub(base):
                    ck.violation('exception classes of kernelmethods.config', '%s does not derive from KernelMethodsException' % nm_)
                else:
                    okc += 1
        for nm_ in sorted(need):
            if nm_ not in mod.s:
                ck.undecided('exception classes', nm_ + ' is not in kernelmethods.config')
        # exceptions defined in other modules
        for mn, md in ip.mods.items():
            if mn == 'kernelmethods.config' or not mn.startswith('kernelmethods'):
                continue
            for nm_, c in md.s.items():
                if isinstance(c, ClassV) and c.issub(T_['Exception']) and not c.issub(T_['Warning']) and not c.issub(base):
                    ck.violation('exception classes of ' + mn, '%s does not derive from KernelMethodsException' % nm_)
        if not base.issub(T_['Exception']):
            ck.violation('KernelMethodsException', 'is not an exception')
        ck.obl.append(('exception hierarchy of kernelmethods.config', okc, okc, 0, 0))
    ck.fork([lambda x=x, y=y: km_cases(x, y) for x in (True, False) for y in (True, False)] +
            [lambda x=x: concrete(*x) for x in ((False, 2, 0), (True, 2, 3), (True, 3, 2))] + [ops])
