"""Entry states of the analysis: symbolic samples, kernels, kernel matrices."""
import os
from .interp import Interp, PyRaise, Infeasible, GiveUp, AnchorLost, Out, Frame
from .terms import *
from .terms import Facts
from .values import *
from . import models as M

MODULES = ['kernelmethods', 'kernelmethods.config', 'kernelmethods.utils',
           'kernelmethods.operations', 'kernelmethods.base',
           'kernelmethods.numeric_kernels', 'kernelmethods.categorical',
           'kernelmethods.sampling', 'kernelmethods.ranking',
           'kernelmethods.algorithms']


def isym(name):
    return sym(name, 'int')


N, M_, D = isym('n'), isym('m'), isym('d')


class Env:
    """One analysis of the repository's current sources."""

    def __init__(self, root):
        self.root = root
        self.ip = Interp(root)
        self.load_error = None
        for m in MODULES:
            rel = os.path.join(root, *m.split('.'))
            if not (os.path.isfile(rel + '.py') or os.path.isdir(rel)):
                raise AnchorLost('module %s does not exist' % m)
        for dirpath, dirs, files in os.walk(os.path.join(root, 'kernelmethods')):
            dirs[:] = [x for x in dirs if x not in ('tests', '__pycache__')]
            pkg = os.path.relpath(dirpath, root).replace(os.sep, '.')
            for f in sorted(files):
                if f.endswith('.py') and f != '__init__.py':
                    name = pkg + '.' + f[:-3]
                    if name not in MODULES:
                        MODULES.append(name)
        for m in MODULES:
            try:
                self.ip.module(m)
            except PyRaise as e:
                raise AnchorLost('import of %s raises %s %r' % (m, e.exc.cls.name, e.exc.s.get('args')))
        self.load_events = self.ip.st.s['ev']
        self.ip.put(self.ip.st, 'ev', ())
        self.ip.put(self.ip.st, 'taint', ())
        del self.ip.journal[:]
        base = self.get('base.BaseKernelFunction')
        self.kcls = TypeV('SampleKernel', (base,), {})

        def kcall(ip, args, kw):
            self_, x, y = args[0], args[1], args[2]
            r1, r2 = M.rowkey(x), M.rowkey(y)
            k = self_.s['#k']
            if ip.fail_at is not None:
                ip.fail_at -= 1
                if ip.fail_at < 0:
                    ip.fail_at = None
                    ip.event('kernel-fail', k, r1, r2)
                    ip.throw('RuntimeError', 'kernel function failed')
            if ip.kernel_may_fail:
                if ip.decide(('p', 'kfail', k, ip.kernel_may_fail, r1, r2)):
                    ip.event('kernel-fail', k, r1, r2)
                    ip.throw('RuntimeError', 'kernel function failed')
            ip.event('kernel', self_, x, y)
            return Sc(kern(k, r1, r2), 'float')
        nat = Native('kernel', kcall)
        nat.method = True
        self.kcls.ns['__call__'] = nat
        st = Native('str', lambda ip, args, kw: StrV(('kname', args[0].s['#k'])))
        st.method = True
        self.kcls.ns['__str__'] = st

    def get(self, path):
        """Public object such as 'base.KernelMatrix'."""
        mod, _, name = path.partition('.')
        m = self.ip.mods.get('kernelmethods.' + mod)
        if m is None or name not in m.s:
            raise AnchorLost('public name kernelmethods.%s does not exist' % path)
        return m.s[name]

    def ev(self, src, **vars_):
        """Abstract value of a Python expression over the given values."""
        import ast
        ip = self.ip
        fr = Frame(ip.mods['kernelmethods.base'], (), set(vars_), None, 'func')
        for k, v in vars_.items():
            ip.setname(k, v, fr)
        ip.frames.append(fr)
        try:
            return ip.ev(ast.parse(src, mode='eval').body, fr)
        finally:
            ip.frames.pop()

    def kernel(self, k='k'):
        o = Obj(self.kcls, ('kernel', k))
        o.s['#k'] = k
        o.s['name'] = StrV(('kname', k))
        return o

    def arr(self, name, shape, dt=F8, owner=True):
        b = A(('idx', (name,), tuple(I(j) for j in range(len(shape)))))
        if dt.name == 'bool':
            b = ('p', 'elt', name) + tuple(I(j) for j in range(len(shape)))
        return Arr(shape, b, dt, owner=name if owner else None)

    def pos(self, *syms):
        for s in syms or (N, M_, D):
            self.ip.assume(mk_le(ONE - s))

    def explore(self, fn, capture=None, limit=None):
        return self.ip.explore(fn, capture, limit)


def rowkey(v):
    """Identity of a sample row passed to a kernel function."""
    if isinstance(v, Arr) and v.ndim == 1 and v.fmt == 'nd':
        b = body_of(v)
        if isinstance(b, Poly):
            a = b.single_atom()
            if a and a[0] == 'idx' and len(a[2]) == 2 and a[2][1] == I(0) \
                    and ('i', 0) not in free(a[2][0]):
                return ('row', a[1], a[2][0])
    from .extlib import akey
    return ('rowx', akey(v))


M.rowkey = rowkey
