"""Path-partitioned abstract interpreter over the Python syntax tree.

Nothing of the analysed repository is imported or executed: every statement is
given its abstract meaning over the value domain of values.py.  Branches whose
condition is not implied by the collected facts partition the analysis; loops
over collections of symbolic length are summarised, never unrolled.
"""
import ast
import os
from .terms import *
from .terms import Facts, TooComplex
from .values import *
from .values import UnkBody

MAX_DEPTH = 60
MAX_STEPS = 60000


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Infeasible(Exception):
    pass


class GiveUp(Exception):
    pass


class AnchorLost(Exception):
    pass


class Event:
    __slots__ = ('vars', 'cond', 'kind', 'data', 'pos')

    def __init__(self, kind, data, pos, vars_=(), cond=True):
        self.kind, self.data, self.pos = kind, data, pos
        self.vars, self.cond = tuple(vars_), cond

    def __repr__(self):
        return 'Ev(%s %r @%s)' % (self.kind, self.data, self.pos)


class Frame(Mut):
    __slots__ = ('func', 'module', 'closure', 'locs', 'globs', 'gen', 'cls', 'kind')

    def __init__(self, module, closure=(), locs=None, func=None, kind='func'):
        Mut.__init__(self)
        self.module = module
        self.closure = closure
        self.locs = locs
        self.globs = set()
        self.func = func
        self.gen = None
        self.kind = kind


class Ctx:
    def __init__(self, prefix):
        self.prefix = prefix
        self.dec = []       # list of [cond, value, other_feasible]
        self.pos = 0


class Out:
    """One outcome of an exploration."""
    __slots__ = ('kind', 'val', 'conds', 'extra', 'facts', 'events', 'taint', 'pos')


def local_names(node):
    """Names local to a function node."""
    names = set()
    globs = set()

    def target(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(x.id)

    def visit(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                names.add(ch.name)
                continue
            if isinstance(ch, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # walrus targets leak; ignore
                continue
            if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)):
                names.add(ch.id)
            elif isinstance(ch, ast.ExceptHandler) and ch.name:
                names.add(ch.name)
            elif isinstance(ch, (ast.Import, ast.ImportFrom)):
                for a in ch.names:
                    names.add((a.asname or a.name).split('.')[0])
            elif isinstance(ch, (ast.Global, ast.Nonlocal)):
                globs.update(ch.names)
            visit(ch)

    if isinstance(node, ast.Lambda):
        pass
    else:
        for st in node.body:
            w = ast.Module(body=[st], type_ignores=[])
            visit(w)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    return names - globs, globs


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp,
                          ast.ListComp, ast.SetComp, ast.DictComp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def finite_simp(c):
    """Condition under the assumption that no value is NaN or infinite."""
    if isinstance(c, bool):
        return c
    t = c[0]
    if t == 'p' and c[1] in ('isnan', 'notfinite'):
        return False
    if t == 'not':
        r = finite_simp(c[1])
        return mk_not(r)
    if t in ('and', 'or'):
        xs = [finite_simp(x) for x in c[1]]
        return mk_and(*xs) if t == 'and' else mk_or(*xs)
    if t == 'any':
        return False if finite_simp(c[3]) is False else c
    return c


class Interp:
    def __init__(self, root, package='kernelmethods'):
        from . import models
        self.models = models
        self.root = root
        self.package = package
        self.all_finite = False
        self.mods = {}
        self.ext_imports = []    # (name, position) of every import of an outside module
        self.journal = []
        self.ctxs = []
        self.facts = Facts()
        self.st = Mut()
        self.st.s['ev'] = ()
        self.st.s['taint'] = ()
        self.depth = 0
        self.steps = 0
        self.frames = []
        self.pos = ('?', '?', 0)
        self.lastpos = self.pos
        self.exc_stack = []
        self.trees = {}
        self.visited = set()       # functions analysed
        self.nloops = 0
        self.kernel_may_fail = False
        self.fail_at = None
        self.fail_hooks = set()    # external calls that may raise
        self.max_paths = 400
        self.T = models.TYPES
        self._loc_cache = {}
        self.fseen = set()

    # ------------------------------------------------------------ state
    def put(self, o, slot, val):
        if isinstance(o, AttrDict) and slot == 'ents':
            return self.put_attrs(o.target, val)
        self.journal.append((o, slot, o.s.get(slot, MISSING)))
        o.s[slot] = val

    def put_attrs(self, o, ents):
        new = {}
        for e in ents:
            if e.vars or not isinstance(e.key, str) or e.cond is not True or e.weak:
                self.taint('attributes set through __dict__')
                return
            new[e.key] = e.val
        for k in [k for k in o.s if isinstance(k, str) and not k.startswith('#')]:
            if k not in new:
                self.dele(o, k)
        for k, v in new.items():
            if k not in o.s or o.s[k] is not v:
                self.put(o, k, v)

    def dele(self, o, slot):
        self.journal.append((o, slot, o.s.get(slot, MISSING)))
        o.s.pop(slot, None)

    def rollback(self, mark):
        j = self.journal
        while len(j) > mark:
            o, s, v = j[-1]
            if v is MISSING:
                o.s.pop(s, None)
            else:
                o.s[s] = v
            j.pop()

    def event(self, kind, *data):
        self.put(self.st, 'ev', self.st.s['ev'] + (Event(kind, data, self.pos),))

    def taint(self, why):
        self.put(self.st, 'taint', self.st.s['taint'] + ((why, self.pos),))

    def unk(self, why):
        return Unk('%s at %s:%s' % (why, self.pos[0], self.pos[2]))

    # ------------------------------------------------------------ decisions
    def decide(self, c):
        if c is True or c is False:
            return c
        r = self.facts.decide(c)
        if r is not None:
            return r
        if self.all_finite:
            r = finite_simp(c)
            if isinstance(r, bool):
                return r
        ctx = self.ctxs[-1] if self.ctxs else None
        if ctx is None:
            raise GiveUp('undecided outside exploration: %s' % show_cond(c))
        i = len(ctx.dec)
        if i < len(ctx.prefix):
            v, other = ctx.prefix[i]
            if not self.facts.add(c, v):
                raise Infeasible()
            ctx.dec.append((c, v, other))
            return v
        f = self.facts.copy()
        okT = f.add(c, True)
        g = self.facts.copy()
        okF = g.add(c, False)
        if okT:
            self.facts = f
            ctx.dec.append((c, True, okF))
            return True
        if not okF:
            raise Infeasible()
        self.facts = g
        ctx.dec.append((c, False, False))
        return False

    def assume(self, c):
        if not self.facts.add(c, True):
            raise Infeasible()

    def known(self, c):
        if c is True or c is False:
            return c
        return self.facts.decide(c)

    def explore(self, fn, capture=None, limit=None):
        """Run fn on every partition; returns list of Out."""
        outs = []
        prefix = []
        saved = self.facts
        depth, frames, excs = self.depth, list(self.frames), list(self.exc_stack)
        pos = self.pos
        n = 0
        limit = limit or self.max_paths
        while True:
            n += 1
            if n > limit:
                raise GiveUp('too many paths')
            mark = len(self.journal)
            ctx = Ctx(prefix)
            self.ctxs.append(ctx)
            self.facts = saved.copy()
            self.pos = pos
            o = Out()
            ok = True
            nctx = len(self.ctxs)
            try:
                try:
                    o.kind, o.val = 'ok', fn()
                except PyRaise as e:
                    o.kind, o.val = 'raise', e.exc
                except UnkBody as e:
                    o.kind, o.val = 'ok', self.unk(e.why)
                    self.taint('unknown array content: ' + str(e.why))
                except TooComplex as e:
                    raise GiveUp('term too complex: %s' % e)
                o.conds = tuple(c if v else mk_not(c) for c, v, _ in ctx.dec)
                o.facts = self.facts
                o.events = self.st.s['ev']
                o.taint = self.st.s['taint']
                o.pos = self.lastpos if self.pos[0] == '?' else self.pos
                if capture is None:
                    o.val = freeze(o.val)
                    o.extra = None
                else:
                    o.extra = capture(o)
            except Infeasible:
                ok = False
            finally:
                del self.ctxs[nctx:]
                self.ctxs.pop()
                self.rollback(mark)
                self.facts = saved
                self.depth, self.frames, self.exc_stack = depth, list(frames), list(excs)
                self.pos = pos
            if ok:
                outs.append(o)
            dec = [(v, other) for _, v, other in ctx.dec]
            while dec and not (dec[-1][0] is True and dec[-1][1]):
                dec.pop()
            if not dec:
                break
            dec[-1] = (False, False)
            prefix = dec
        return outs

    # ------------------------------------------------------------ errors
    def exc(self, tname, *args):
        t = self.T.get(tname) or tname
        o = Obj(t)
        o.s['args'] = tuple(args)
        o.info = ('exc', self.pos[0], self.pos[1], self.pos[2])
        return o

    def throw(self, tname, *args):
        raise PyRaise(self.exc(tname, *args))

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.split('.')
        path = os.path.join(self.root, *rel)
        if os.path.isdir(path):
            file = os.path.join(path, '__init__.py')
        else:
            file = path + '.py'
        if not os.path.isfile(file):
            self.throw('ModuleNotFoundError', name)
        m = ModV(name, file)
        self.mods[name] = m
        src = open(file, encoding='utf-8').read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, file)
        self.trees[name] = tree
        m.s['__name__'] = name
        m.s['__file__'] = file
        fr = Frame(m, (), None, None, 'module')
        fr.s = m.s
        fr.b = m.b
        self.frames.append(fr)
        old = self.pos
        self.pos = (os.path.relpath(file, self.root), '<module>', 0)
        try:
            self.block(tree.body, fr)
        finally:
            self.pos = old
            self.frames.pop()
        return m

    def import_name(self, name):
        """Value of an absolute dotted module name."""
        if name == self.package or name.startswith(self.package + '.'):
            self.module(self.package)
            return self.module(name)
        self.ext_imports.append((name, self.pos))
        return Ext(name)

    def import_from(self, m, name):
        if isinstance(m, ModV):
            if name in m.s:
                return m.s[name]
            sub = m.name + '.' + name
            p = os.path.join(self.root, *sub.split('.'))
            if os.path.exists(p + '.py') or os.path.isdir(p):
                return self.module(sub)
            if '__getattr__' in m.s:
                return self.call(m.s['__getattr__'], [name])
            self.throw('ImportError', 'cannot import name %s from %s' % (name, m.name))
        return self.models.ext_attr(self, m, name)

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            sig = self.stmt(st, fr)
            if sig is not None:
                return sig
        return None

    def stmt(self, n, fr):
        self.steps += 1
        if self.steps > MAX_STEPS * 50:
            raise GiveUp('step budget exhausted')
        self.pos = (self.pos[0], self.pos[1], n.lineno)
        k = type(n).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise GiveUp('unsupported statement %s' % k)
        return m(n, fr)

    def s_Expr(self, n, fr):
        if isinstance(n.value, ast.Constant):
            return None
        self.ev(n.value, fr)

    def s_Pass(self, n, fr):
        return None

    def s_Assign(self, n, fr):
        v = self.ev(n.value, fr)
        for t in n.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, n, fr):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, fr), fr)

    def s_AugAssign(self, n, fr):
        op = type(n.op).__name__
        t = n.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, fr)
            self.assign(t, self.inplace(op, old, self.ev(n.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, old, self.ev(n.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            old = self.models.getitem(self, o, i)
            new = self.inplace(op, old, self.ev(n.value, fr))
            self.models.setitem(self, o, i, new)
        else:
            raise GiveUp('augassign')

    def inplace(self, op, old, val):
        if isinstance(old, Arr):
            new = self.models.binop(self, op, old, val)
            if isinstance(new, Arr) and new.ndim == old.ndim:
                self.models.arr_write_all(self, old, new)
                return old
            return new
        if isinstance(old, PList) and op == 'Add' and old.kind == 'list':
            self.models.method(self, old, 'extend', [val], {})
            return old
        if isinstance(old, Obj):
            d = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__'}.get(op)
            f = d and self.lookup(old.cls, d)
            if f is not None:
                return self.call(Bound(f, old), [val])
        return self.models.binop(self, op, old, val)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.models.setitem(self, o, self.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, len(t.elts) if not star else None)
            if items is None:
                self.taint('unpacking of unknown')
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, self.unk('unpack'), fr)
                return
            if star:
                s = star[0]
                after = len(t.elts) - s - 1
                if len(items) < len(t.elts) - 1:
                    self.throw('ValueError', 'not enough values to unpack')
                parts = items[:s] + [PList(items[s:len(items) - after])] + items[len(items) - after:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(items) != len(t.elts):
                self.throw('ValueError', 'wrong number of values to unpack')
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        else:
            raise GiveUp('assign target')

    def unpack(self, v, n=None):
        """Concrete list of items, or None."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Unk):
            return None
        segs = self.models.iterate(self, v)
        if segs is None:
            return None
        out = []
        for g in segs:
            if isinstance(g, AccSeg):
                return None
            if g.vars:
                if n is not None and len(segs) == 1 and len(g.vars) == 1 and g.cond is True:
                    if self.decide(mk_eq(g.vars[0][1] - P(n))):
                        return [vsub(g.val, {g.vars[0][0]: P(i)}) for i in range(n)]
                    self.throw('ValueError', 'wrong number of values to unpack')
                return None
            if g.cond is not True and not self.decide(g.cond):
                continue
            out.append(g.val)
        return out

    def s_Return(self, n, fr):
        return ('ret', self.ev(n.value, fr) if n.value is not None else None)

    def s_If(self, n, fr):
        if self.truth(self.ev(n.test, fr)):
            return self.block(n.body, fr)
        return self.block(n.orelse, fr)

    def s_For(self, n, fr):
        it = self.ev(n.iter, fr)
        segs = self.models.iterate(self, it)
        if segs is None:
            self.taint('iteration over unknown')
            self.havoc_body(n, fr)
            return None

        def body(v):
            self.assign(n.target, v, fr)
            return self.block(n.body, fr)
        sig = self.run_loop(segs, body)
        if sig == 'brk':
            return None
        if sig is not None and sig != 'cont':
            return sig
        if n.orelse:
            return self.block(n.orelse, fr)
        return None

    def havoc_body(self, n, fr):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                self.setname(x.id, self.unk('loop'), fr)

    def s_While(self, n, fr):
        # counter-controlled loops are turned into generic loops
        for it in range(4):
            t = self.ev(n.test, fr)
            if isinstance(t, Bo) and self.known(t.c) is None and it == 0 or \
                    (isinstance(t, Bo) and self.known(t.c) is None):
                sig = self.while_generic(n, fr)
                if sig != 'FAIL':
                    return sig
            if not self.truth(t):
                if n.orelse:
                    return self.block(n.orelse, fr)
                return None
            sig = self.block(n.body, fr)
            if sig == 'brk':
                return None
            if sig is not None and sig != 'cont':
                return sig
        # concrete loops may go on for a while
        for it in range(200):
            t = self.ev(n.test, fr)
            if isinstance(t, Bo) and self.known(t.c) is None:
                break
            if not self.truth(t):
                return None
            sig = self.block(n.body, fr)
            if sig == 'brk':
                return None
            if sig is not None and sig != 'cont':
                return sig
        self.taint('while loop not summarised')
        self.havoc_body(n, fr)
        return None

    def while_generic(self, n, fr):
        """Find a frame variable stepping by one whose comparison controls the
        loop; run as a generic loop over it."""
        names = [x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)]
        cands = [v for v in dict.fromkeys(names)
                 if isinstance(fr.s.get(v), (int, Sc)) and not isinstance(fr.s.get(v), bool)]
        for v in cands:
            old = fr.s[v]
            p0 = self.models.poly(old)
            if not is_int(p0):
                continue
            q = fresh_q()

            def one_iter():
                self.put(fr, v, Sc(A(q), 'int'))
                t = self.ev(n.test, fr)
                c = t.c if isinstance(t, Bo) else None
                if c is None:
                    return None
                sig = self.block(n.body, fr)
                nv = fr.s.get(v)
                return (c, sig, self.models.poly(nv) if isinstance(nv, (int, Sc)) else None)
            try:
                outs = self.explore(one_iter, limit=60)
            except (GiveUp, TooComplex):
                continue
            steps = set()
            cond = None
            ok = True
            for o in outs:
                if o.kind == 'raise':
                    continue
                if o.val is None or o.val[2] is None:
                    ok = False
                    break
                if o.val[1] not in (None, 'cont'):
                    continue
                d = (o.val[2] - A(q)).const()
                steps.add(d)
                cond = o.val[0]
            if not ok or cond is None or len(steps) != 1:
                continue
            d = steps.pop()
            # cond must be a bound on q
            pos = cond
            neg = False
            if pos[0] == 'not':
                pos, neg = pos[1], True
            if pos[0] != 'le':
                continue
            from .terms import solve_eq
            sol = solve_eq(pos[1], q)
            if sol is None:
                continue
            coef = [c for m, c in pos[1].t if m == ((q, 1),) or (len(m) == 1 and m[0][0] == q)][0]
            # le: coef*q <= ...
            if d == 1 and ((coef > 0) != neg):
                # q <= sol  (or, negated with coef<0: q < ... )
                hi = sol + ONE if not neg else sol
                lo, sgn = p0, 1
            elif d == -1 and ((coef < 0) != neg):
                # q >= sol ;  negated: not(q <= sol) -> q > sol
                lo2 = sol if not neg else sol + ONE
                lo, hi, sgn = ZERO, p0 - lo2 + ONE, -1
            else:
                continue

            def body_at(e):
                self.put(fr, v, Sc(e if sgn == 1 else p0 - e, 'int'))
                return self.block(n.body, fr)
            if sgn == 1:
                sig = self.generic_loop(hi - lo, lambda e: body_at(e + lo))
            else:
                sig = self.generic_loop(hi, body_at)
            if sig is None or sig == 'cont':
                if sgn == 1:
                    # after the loop the counter is max(lo,hi)
                    if self.decide(mk_lt(lo - hi)):
                        self.put(fr, v, Sc(hi, 'int'))
                    else:
                        self.put(fr, v, old)
                else:
                    if self.decide(mk_lt(-hi)):
                        self.put(fr, v, Sc(p0 - hi, 'int'))
                    else:
                        self.put(fr, v, old)
                if n.orelse:
                    return self.block(n.orelse, fr)
                return None
            if sig == 'brk':
                return None
            return sig
        return 'FAIL'

    def s_Break(self, n, fr):
        return 'brk'

    def s_Continue(self, n, fr):
        return 'cont'

    def s_Raise(self, n, fr):
        if n.exc is None:
            if not self.exc_stack:
                self.throw('RuntimeError', 'No active exception to reraise')
            raise PyRaise(self.exc_stack[-1])
        v = self.ev(n.exc, fr)
        if n.cause is not None:
            self.ev(n.cause, fr)
        if isinstance(v, TypeV):
            v = self.call(v, [])
        if isinstance(v, Unk):
            self.taint('raise of unknown')
            v = self.exc('Exception')
        if not isinstance(v, Obj) or not v.cls.issub(self.T['BaseException']):
            self.throw('TypeError', 'exceptions must derive from BaseException')
        if v.info is None:
            v.info = ('exc', self.pos[0], self.pos[1], self.pos[2])
        raise PyRaise(v)

    def match_exc(self, exc, spec):
        if isinstance(spec, tuple):
            return any(self.match_exc(exc, s) for s in spec)
        if isinstance(spec, Ext):
            t = self.models.ext_type(self, spec)
            if t is None:
                return exc.cls.name == spec.name
            spec = t
        if isinstance(spec, TypeV):
            return exc.cls.issub(spec)
        return False

    def s_Try(self, n, fr):
        sig = None
        try:
            try:
                sig = self.block(n.body, fr)
                ok = True
            except PyRaise as e:
                ok = False
                exc = e.exc
                handled = False
                pos = self.pos
                for h in n.handlers:
                    if h.type is None or self.match_exc(exc, self.ev(h.type, fr)):
                        handled = True
                        self.exc_stack.append(exc)
                        if h.name:
                            self.setname(h.name, exc, fr)
                        try:
                            sig = self.block(h.body, fr)
                        finally:
                            self.exc_stack.pop()
                            if h.name:
                                self.dele(fr, h.name)
                        break
                if not handled:
                    self.pos = pos
                    raise
            if ok and sig is None:
                sig = self.block(n.orelse, fr)
        except PyRaise:
            if n.finalbody:
                s2 = self.block(n.finalbody, fr)
                if s2 is not None:
                    return s2
            raise
        if n.finalbody:
            s2 = self.block(n.finalbody, fr)
            if s2 is not None:
                return s2
        return sig

    def s_With(self, n, fr):
        mgrs = []
        sup = ()
        for it in n.items:
            m = self.ev(it.context_expr, fr)
            v = m
            if isinstance(m, Obj) and self.lookup(m.cls, '__enter__'):
                v = self.call(self.getattr(m, '__enter__'), [])
                mgrs.append(m)
            elif isinstance(m, Opq) and isinstance(m.key, tuple) and m.key and m.key[0] == 'suppress':
                sup = sup + m.key[1]
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        try:
            sig = self.block(n.body, fr)
        except PyRaise as e:
            for m in reversed(mgrs):
                r = self.call(self.getattr(m, '__exit__'), [e.exc.cls, e.exc, None])
                if self.truth(r):
                    return None
            if sup and self.match_exc(e.exc, sup):
                return None
            raise
        for m in reversed(mgrs):
            self.call(self.getattr(m, '__exit__'), [None, None, None])
        return sig

    def s_Assert(self, n, fr):
        if not self.truth(self.ev(n.test, fr)):
            self.throw('AssertionError')

    def s_Delete(self, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.name(t.id, fr)
                self.dele(fr, t.id)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fr), t.attr)
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.ev(t.value, fr), self.ev_index(t.slice, fr))
            else:
                raise GiveUp('del')

    def s_Global(self, n, fr):
        fr.globs.update(n.names)

    s_Nonlocal = lambda self, n, fr: fr.globs.update('nl:' + x for x in n.names)

    def s_Import(self, n, fr):
        for a in n.names:
            m = self.import_name(a.name)
            if a.asname:
                self.setname(a.asname, m, fr)
            else:
                top = a.name.split('.')[0]
                self.setname(top, self.import_name(top), fr)

    def s_ImportFrom(self, n, fr):
        if n.level:
            parts = fr.module.name.split('.')
            if not fr.module.path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            base = '.'.join(parts + ([n.module] if n.module else []))
        else:
            base = n.module
        m = self.import_name(base)
        for a in n.names:
            if a.name == '*':
                if isinstance(m, ModV):
                    names = m.s.get('__all__')
                    names = names.concrete() if isinstance(names, PList) else names
                    for k, v in list(m.s.items()):
                        if (names is None and not k.startswith('_')) or (names and k in names):
                            self.setname(k, v, fr)
                continue
            self.setname(a.asname or a.name, self.import_from(m, a.name), fr)

    def s_FunctionDef(self, n, fr):
        f = self.make_func(n, fr)
        v = f
        for d in reversed(n.decorator_list):
            v = self.decorate(d, v, fr)
        self.setname(n.name, v, fr)

    def decorate(self, d, v, fr):
        if isinstance(d, ast.Name):
            if d.id == 'property' and self.name('property', fr) is self.T['property']:
                return Prop(v)
            if d.id == 'staticmethod':
                return StaticM(v)
            if d.id == 'classmethod':
                return ClassM(v)
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter', 'getter'):
            p = self.ev(d.value, fr)
            if isinstance(p, Prop):
                return Prop(p.fget if d.attr != 'getter' else v,
                            v if d.attr == 'setter' else p.fset)
        dv = self.ev(d, fr)
        return self.call(dv, [v])

    def s_AsyncFunctionDef(self, n, fr):
        raise GiveUp('async')

    def make_func(self, n, fr):
        a = n.args
        defaults = tuple(self.ev(x, fr) for x in a.defaults)
        kwd = {}
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[x.arg] = self.ev(d, fr)
        closure = fr.closure
        if fr.kind in ('func', 'comp'):
            closure = (fr,) + fr.closure
        name = getattr(n, 'name', '<lambda>')
        f = Func(n, fr.module, closure, name, None, defaults, kwd)
        if fr.kind == 'func' and fr.func is not None and fr.func.cls is not None:
            f.cls = fr.func.cls
        return f

    def s_ClassDef(self, n, fr):
        bases = []
        for b in n.bases:
            v = self.ev(b, fr)
            if isinstance(v, Ext):
                t = self.models.ext_type(self, v)
                if t is None:
                    t = TypeV(v.name, (self.T['object'],))
                    self.models.TYPES_EXT[v.name] = t
                v = t
            if not isinstance(v, TypeV):
                raise GiveUp('class base')
            bases.append(v)
        if not bases:
            bases = [self.T['object']]
        try:
            c = ClassV(n.name, bases, fr.module, n)
        except ValueError as e:
            self.throw('TypeError', str(e))
        cf = Frame(fr.module, (fr,) + fr.closure if fr.kind == 'func' else fr.closure, None, None, 'class')
        cf.s['__module__'] = fr.module.name
        cf.s['__qualname__'] = n.name
        oldpos = self.pos
        self.pos = (self.pos[0], n.name, n.lineno)
        self.block(n.body, cf)
        self.pos = oldpos
        for k, v in cf.s.items():
            for f in funcs_in(v):
                if f.cls is None:
                    f.cls = c
            c.s[k] = v
        v = c
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d, fr), [v])
        self.setname(n.name, v, fr)

    # ------------------------------------------------------------ names
    def setname(self, name, v, fr):
        if 'nl:' + name in fr.globs:
            for c in fr.closure:
                if name in c.s or (c.locs and name in c.locs):
                    self.put(c, name, v)
                    return
        if name in fr.globs:
            self.put(fr.module, name, v)
            return
        self.put(fr, name, v)

    def name(self, name, fr):
        if name in fr.s and name not in fr.globs:
            return fr.s[name]
        if fr.locs is not None and name in fr.locs and name not in fr.globs:
            self.throw('UnboundLocalError', name)
        for c in fr.closure:
            if name in c.s:
                return c.s[name]
            if c.locs is not None and name in c.locs:
                self.throw('NameError', name)
        g = fr.module.s
        if name in g:
            return g[name]
        b = self.models.builtin(self, name)
        if b is not None:
            return b
        if name == 'None':
            return None
        self.throw('NameError', name)

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        k = type(n).__name__
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise GiveUp('unsupported expression %s' % k)
        if hasattr(n, 'lineno'):
            self.pos = (self.pos[0], self.pos[1], n.lineno)
        return m(n, fr)

    def e_Constant(self, n, fr):
        v = n.value
        if isinstance(v, float):
            return Sc(P(v), 'float')
        if isinstance(v, (bool, int, str)) or v is None:
            return v
        if v is Ellipsis:
            return Ext('builtins.Ellipsis')
        return Opq(('const', repr(v)), None)

    def e_Name(self, n, fr):
        return self.name(n.id, fr)

    def e_Tuple(self, n, fr):
        items = self.elts(n.elts, fr)
        if items is None:
            return self.unk('tuple')
        return tuple(items) if isinstance(items, list) else items

    def e_List(self, n, fr):
        items = self.elts(n.elts, fr)
        if isinstance(items, list):
            return PList(items)
        if isinstance(items, PList):
            return PList(segs=items.segs)
        return self.unk('list')

    def e_Set(self, n, fr):
        items = self.elts(n.elts, fr)
        if not isinstance(items, list):
            return self.unk('set')
        return self.models.make_set(self, PList(items))

    def elts(self, es, fr):
        segs = []
        for e in es:
            if isinstance(e, ast.Starred):
                g = self.models.iterate(self, self.ev(e.value, fr))
                if g is None:
                    return None
                segs += list(g)
            else:
                segs.append(one(self.ev(e, fr)))
        l = PList(segs=segs)
        c = l.concrete()
        if c is not None:
            return c
        l.kind = 'list'
        return l

    def e_Dict(self, n, fr):
        d = PDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, fr)
                if isinstance(o, PDict):
                    for e in o.ents:
                        if e.vars or e.weak or e.cond is not True:
                            return self.unk('dict merge')
                        self.models.setitem(self, d, e.key, e.val)
                else:
                    return self.unk('dict merge')
            else:
                kk = self.ev(k, fr)
                self.models.setitem(self, d, kk, self.ev(v, fr))
        return d

    def simple_pure(self, e):
        if isinstance(e, (ast.Name, ast.Constant)):
            return True
        if isinstance(e, ast.Compare):
            return self.simple_pure(e.left) and all(self.simple_pure(x) for x in e.comparators)
        if isinstance(e, ast.UnaryOp):
            return self.simple_pure(e.operand)
        if isinstance(e, ast.BinOp):
            return self.simple_pure(e.left) and self.simple_pure(e.right)
        return False

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        if all(isinstance(e, ast.Compare) and self.simple_pure(e) for e in n.values):
            # comparisons of plain names: combine without partitioning
            mark = len(self.journal)
            try:
                vs = [self.ev(e, fr) for e in n.values]
            except PyRaise:
                self.rollback(mark)
                vs = None
            if vs is not None and all(isinstance(v, (bool, Bo)) for v in vs):
                cs = [v.c if isinstance(v, Bo) else v for v in vs]
                c = mk_and(*cs) if isand else mk_or(*cs)
                return c if isinstance(c, bool) else Bo(c)
        v = None
        for k, e in enumerate(n.values):
            v = self.ev(e, fr)
            if k == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return self.fix_bool(v, False)
            if not isand and t:
                return self.fix_bool(v, True)
        return v

    def fix_bool(self, v, val):
        if isinstance(v, Bo):
            return val
        return v

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            if isinstance(v, Bo):
                return Bo(mk_not(v.c))
            return not self.truth(v)
        return self.models.unop(self, type(n.op).__name__, v)

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.models.binop(self, type(n.op).__name__, a, b)

    def e_Compare(self, n, fr):
        l = self.ev(n.left, fr)
        res = None
        for k, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            r = self.ev(rn, fr)
            c = self.models.compare(self, type(op).__name__, l, r)
            if len(n.ops) == 1:
                return c
            if k == len(n.ops) - 1:
                return c
            if not self.truth(c):
                return False if isinstance(c, Bo) else c
            l = r
        return res

    def e_IfExp(self, n, fr):
        if self.truth(self.ev(n.test, fr)):
            return self.ev(n.body, fr)
        return self.ev(n.orelse, fr)

    def e_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr)

    def ev_index(self, n, fr):
        if isinstance(n, ast.Slice):
            return self.e_Slice(n, fr)
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_index(e, fr) for e in n.elts)
        return self.ev(n, fr)

    def e_Slice(self, n, fr):
        return SliceV(self.ev(n.lower, fr) if n.lower else None,
                      self.ev(n.upper, fr) if n.upper else None,
                      self.ev(n.step, fr) if n.step else None)

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        return self.models.getitem(self, o, self.ev_index(n.slice, fr))

    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return self.zero_super(fr)
        f = self.ev(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value, fr)
                items = self.unpack(sv)
                if items is None:
                    args.append(('*', sv))
                else:
                    args += items
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                c = d.concrete() if isinstance(d, PDict) else None
                if c is None:
                    self.taint('**unknown')
                    return self.unk('** of unknown')
                for kk, vv in c:
                    if not isinstance(kk, str):
                        self.throw('TypeError', 'keywords must be strings')
                    if kk in kw:
                        self.throw('TypeError', 'multiple values for keyword')
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    self.throw('TypeError', 'multiple values for keyword')
                kw[k.arg] = self.ev(k.value, fr)
        if args and any(isinstance(a, tuple) and len(a) == 2 and a[0] == '*' and not isinstance(a[1], (int, str)) for a in args):
            star = [a for a in args if isinstance(a, tuple) and len(a) == 2 and a[0] == '*']
            r = self.models.call_star(self, f, args, kw)
            if r is not None:
                return r
        self.pos = (self.pos[0], self.pos[1], n.lineno)
        return self.call(f, args, kw)

    def zero_super(self, fr):
        f = fr
        while f is not None and (f.func is None or f.func.cls is None):
            f = f.closure[0] if f.closure else None
        if f is None:
            self.throw('RuntimeError', 'super(): no arguments')
        a = f.func.node.args
        first = (a.posonlyargs + a.args)[0].arg
        return SuperV(f.func.cls, f.s[first])

    def e_Lambda(self, n, fr):
        return self.make_func(n, fr)

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.conversion == ord('r'):
                    x = self.models.to_repr(self, x)
                elif v.conversion == ord('s'):
                    x = self.models.to_str(self, x)
                spec = ''
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr)
                parts.append(self.models.format_value(self, x, spec))
        return self.models.join_strs(parts)

    def e_FormattedValue(self, n, fr):
        return self.models.format_value(self, self.ev(n.value, fr), '')

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        f = fr
        while f.kind == 'comp' and f.closure:
            f = f.closure[0]
        self.setname(n.target.id, v, f)
        return v

    def e_Starred(self, n, fr):
        raise GiveUp('starred')

    def e_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value else None
        f = fr
        while f.gen is None:
            f = f.closure[0]
        self.models.append(self, f.gen, v)
        return None

    def e_YieldFrom(self, n, fr):
        segs = self.models.iterate(self, self.ev(n.value, fr))
        if segs is None:
            self.taint('yield from unknown')
            return None
        self.put(fr.gen, 'segs', fr.gen.segs + tuple(segs))
        return None

    def comp(self, n, fr, add):
        cf = Frame(fr.module, (fr,) + fr.closure if fr.kind != 'module' else fr.closure, None, fr.func, 'comp')
        if fr.kind == 'class':
            cf.closure = fr.closure

        def gen(k):
            if k == len(n.generators):
                add(cf)
                return None
            g = n.generators[k]
            it = self.ev(g.iter, cf if k else fr)
            segs = self.models.iterate(self, it)
            if segs is None:
                self.taint('comprehension over unknown')
                return 'UNK'

            def body(v):
                self.assign(g.target, v, cf)
                for c in g.ifs:
                    if not self.truth(self.ev(c, cf)):
                        return None
                gen(k + 1)
                return None
            return self.run_loop(segs, body)
        self.frames.append(cf)
        try:
            return gen(0)
        finally:
            self.frames.pop()

    def e_ListComp(self, n, fr, kind='list'):
        l = PList(kind=kind)
        r = self.comp(n, fr, lambda cf: self.models.append(self, l, self.ev(n.elt, cf)))
        if r == 'UNK':
            return self.unk('comprehension')
        return l

    def e_GeneratorExp(self, n, fr):
        return self.e_ListComp(n, fr, 'gen')

    def e_SetComp(self, n, fr):
        l = self.e_ListComp(n, fr)
        return self.models.make_set(self, l) if isinstance(l, PList) else l

    def e_DictComp(self, n, fr):
        d = PDict()
        r = self.comp(n, fr, lambda cf: self.models.setitem(self, d, self.ev(n.key, cf), self.ev(n.value, cf)))
        if r == 'UNK':
            return self.unk('comprehension')
        return d

    # ------------------------------------------------------------ attributes
    def lookup(self, cls, name):
        for c in cls.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def bind(self, v, obj, cls=None):
        if isinstance(v, Func):
            return Bound(v, obj)
        if isinstance(v, Prop):
            return self.call(v.fget, [obj])
        if isinstance(v, CachedProp):
            r = self.call(v.f, [obj])
            if isinstance(obj, Obj) and v.name:
                self.put(obj, v.name, r)
            return r
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls or obj.cls)
        if isinstance(v, Native) and getattr(v, 'method', False):
            return Bound(v, obj)
        return v

    def getattr(self, o, name, default=MISSING):
        if isinstance(o, Obj):
            cv = self.lookup(o.cls, name)
            if isinstance(cv, Prop):
                return self.call(cv.fget, [o])
            if name in o.s:
                return o.s[name]
            if cv is not None:
                return self.bind(cv, o)
            r = self.models.obj_attr(self, o, name)
            if r is not MISSING:
                return r
            g = self.lookup(o.cls, '__getattr__')
            if g is not None:
                return self.call(Bound(g, o), [name])
            if default is not MISSING:
                return default
            self.throw('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name))
        if isinstance(o, SuperV):
            mro = (o.obj.cls if isinstance(o.obj, Obj) else o.obj).mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bind(c.ns[name], o.obj)
            r = self.models.super_attr(self, o, mro[i + 1:], name)
            if r is not MISSING:
                return r
            self.throw('AttributeError', "'super' object has no attribute '%s'" % name)
        if isinstance(o, TypeV):
            v = self.lookup(o, name)
            if v is not None:
                if isinstance(v, StaticM):
                    return v.f
                if isinstance(v, ClassM):
                    return Bound(v.f, o)
                return v
            r = self.models.type_attr(self, o, name)
            if r is not MISSING:
                return r
            if default is not MISSING:
                return default
            self.throw('AttributeError', name)
        if isinstance(o, ModV):
            if name in o.s:
                return o.s[name]
            sub = o.name + '.' + name
            if sub in self.mods:
                return self.mods[sub]
            if '__getattr__' in o.s:
                try:
                    return self.call(o.s['__getattr__'], [name])
                except PyRaise as e:
                    if default is not MISSING and e.exc.cls.issub(self.T['AttributeError']):
                        return default
                    raise
            if default is not MISSING:
                return default
            self.throw('AttributeError', 'module %s has no attribute %s' % (o.name, name))
        return self.models.value_attr(self, o, name, default)

    def hasattr(self, o, name):
        try:
            v = self.getattr(o, name)
        except PyRaise as e:
            if e.exc.cls.issub(self.T['AttributeError']):
                return False
            raise
        if isinstance(v, Unk):
            self.taint('hasattr of unknown')
            return self.decide(('p', 'hasattr', vkey(o), name))
        return True

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            cv = self.lookup(o.cls, name)
            if isinstance(cv, Prop):
                if cv.fset is None:
                    self.throw('AttributeError', 'property %s has no setter' % name)
                self.call(cv.fset, [o, v])
                return
            sa = self.lookup(o.cls, '__setattr__')
            if sa is not None and not isinstance(sa, Native):
                self.call(Bound(sa, o), [name, v])
                return
            if o.owner is not None:
                self.event('owner-write', o.owner, 'attribute ' + name)
            self.put(o, name, v)
            return
        if isinstance(o, (ClassV, ModV)):
            self.put(o, name, v)
            return
        if isinstance(o, Func):
            return
        if isinstance(o, Unk) or isinstance(o, Opq) and isinstance(o.key, tuple) and o.key[:1] == ('arrflags',):
            self.taint('attribute write on unknown')
            return
        if isinstance(o, Arr):
            if name == 'shape':
                raise GiveUp('shape assignment')
            if name in ('flags', 'dtype'):
                raise GiveUp('array attribute write')
        if isinstance(o, Ext):
            self.event('ext-setattr', o.name, name)
            return
        self.throw('AttributeError', 'cannot set attribute %s' % name)

    def delattr(self, o, name):
        if isinstance(o, Obj):
            if name not in o.s:
                self.throw('AttributeError', name)
            self.dele(o, name)
            return
        if isinstance(o, Unk):
            self.taint('del on unknown')
            return
        self.throw('AttributeError', name)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, str, tuple)):
            return bool(v)
        if isinstance(v, Bo):
            return self.decide(v.c)
        if isinstance(v, Sc):
            return self.decide(mk_not(mk_eq(v.p)))
        if isinstance(v, Unk):
            self.taint('branch on unknown: %s' % v.why)
            return self.decide(('p', 'unk', v.why))
        if isinstance(v, (PList, PDict)):
            return self.decide(mk_not(mk_eq(self.models.length(self, v))))
        if isinstance(v, Arr):
            sz = ONE
            for x in v.shape:
                sz = sz * x
            if self.decide(mk_eq(sz - ONE)):
                mp = {('i', k): ZERO for k in range(v.ndim)}
                return self.decide(csub(cbody(v), mp) if cbody(v) not in (True, False) else cbody(v))
            self.throw('ValueError', 'The truth value of an array with more than one element is ambiguous')
        if isinstance(v, RegArr):
            self.throw('ValueError', 'ambiguous truth value')
        if isinstance(v, Obj):
            f = self.lookup(v.cls, '__bool__')
            if f is not None:
                return self.truth(self.call(Bound(f, v), []))
            f = self.lookup(v.cls, '__len__')
            if f is not None:
                return self.truth(self.call(Bound(f, v), []))
            r = self.models.obj_len(self, v)
            if r is not None:
                return self.truth(r)
            return True
        if isinstance(v, Opq):
            return self.decide(('p', 'truthy', v.key))
        if isinstance(v, StrV):
            return self.decide(('p', 'truthy', v.key))
        return True

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Native):
            return f.f(self, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Unk):
            self.taint('call of unknown: %s' % f.why)
            for a in args:
                self.escape(a)
            return self.unk('call of unknown')
        if isinstance(f, (Ext, TypeV)):
            r = self.models.call_ext(self, f, args, kw)
            if isinstance(r, Unk):
                for a in list(args) + list(kw.values()):
                    self.escape(a)
            return r
        if isinstance(f, BoundM):
            return self.models.method(self, f.recv, f.name, args, kw)
        if isinstance(f, Obj):
            c = self.lookup(f.cls, '__call__')
            if c is not None:
                return self.call(self.bind(c, f), args, kw)
            r = self.models.obj_call(self, f, args, kw)
            if r is not MISSING:
                return r
            self.throw('TypeError', "'%s' object is not callable" % f.cls.name)
        if isinstance(f, Opq):
            return self.models.opq_call(self, f, args, kw)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        self.throw('TypeError', 'object is not callable')

    def escape(self, v):
        """v was passed to something unknown: its mutable content is lost."""
        if isinstance(v, Arr):
            if v.base is None:
                self.put(v, 'c', (Unk('escaped to unknown call'), ()))
        elif isinstance(v, PList):
            pass

    def call_func(self, f, args, kw):
        self.depth += 1
        if self.depth > MAX_DEPTH:
            raise GiveUp('call depth')
        node = f.node
        key = id(node)
        if key not in self._loc_cache:
            self._loc_cache[key] = (local_names(node), is_generator(node), node)
        (locs, globs), isgen, _ = self._loc_cache[key]
        fr = Frame(f.module, f.closure, locs, f, 'func')
        oldpos = self.pos
        qn = (f.cls.name + '.' if f.cls is not None else '') + f.name
        self.fseen.add(qn)
        self.bind_args(f, fr, args, kw, qn)
        rel = os.path.relpath(f.module.path, self.root)
        self.pos = (rel, qn, node.lineno)
        self.visited.add((rel, qn))
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                r = self.ev(node.body, fr)
            else:
                if isgen:
                    fr.gen = PList(kind='gen')
                sig = self.block(node.body, fr)
                r = sig[1] if isinstance(sig, tuple) and sig[0] == 'ret' else None
                if isgen:
                    r = fr.gen
            self.lastpos = self.pos
            self.pos = oldpos
        finally:
            self.frames.pop()
            self.depth -= 1
        return r

    def bind_args(self, f, fr, args, kw, qn):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        npos = len(a.posonlyargs)
        kw = dict(kw)
        vals = {}
        if len(args) > len(params):
            if a.vararg is None:
                self.throw('TypeError', '%s() takes %d positional arguments but %d were given'
                           % (qn, len(params), len(args)))
            vals[a.vararg.arg] = tuple(args[len(params):])
            args = args[:len(params)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for p, v in zip(params, args):
            vals[p] = v
        for k, p in enumerate(params):
            if p in kw and k >= npos:
                if p in vals:
                    self.throw('TypeError', "%s() got multiple values for argument '%s'" % (qn, p))
                vals[p] = kw.pop(p)
        nd = len(f.defaults)
        for k, p in enumerate(params):
            if p not in vals:
                j = k - (len(params) - nd)
                if j >= 0:
                    vals[p] = f.defaults[j]
                else:
                    self.throw('TypeError', "%s() missing required argument '%s'" % (qn, p))
        for x in a.kwonlyargs:
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                vals[x.arg] = f.kwdefaults[x.arg]
            else:
                self.throw('TypeError', "%s() missing keyword argument '%s'" % (qn, x.arg))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = PDict(kw.items())
        elif kw:
            self.throw('TypeError', "%s() got an unexpected keyword argument '%s'" % (qn, sorted(kw)[0]))
        fr.s.update(vals)

    def abstract_methods(self, cls):
        out = set()
        seen = set()
        for c in cls.mro:
            for k, v in c.ns.items():
                if k in seen:
                    continue
                seen.add(k)
                if getattr(v, 'abstract', False):
                    out.add(k)
        return out

    def instantiate(self, cls, args, kw):
        if cls.issub(self.T['ABC']) and self.abstract_methods(cls):
            self.throw('TypeError', "Can't instantiate abstract class %s" % cls.name)
        o = Obj(cls)
        if cls.issub(self.T['BaseException']):
            o.s['args'] = tuple(args)
            o.info = ('exc', self.pos[0], self.pos[1], self.pos[2])
        new = self.lookup(cls, '__new__')
        if isinstance(new, (Func, StaticM)):
            o = self.call(new.f if isinstance(new, StaticM) else new, [cls] + args, kw)
            if not isinstance(o, Obj) or not o.cls.issub(cls):
                return o
        init = self.lookup(cls, '__init__')
        if isinstance(init, Func):
            r = self.call(Bound(init, o), args, kw)
        elif init is not None:
            self.call(Bound(init, o), args, kw)
        elif not cls.issub(self.T['BaseException']) and (args or kw):
            if not self.models.ext_init(self, o, args, kw):
                self.throw('TypeError', '%s() takes no arguments' % cls.name)
        else:
            self.models.ext_init(self, o, args, kw)
        return o

    # ------------------------------------------------------------ loops
    def run_loop(self, segs, body):
        """Run body(value) for each element; returns signal (None/'brk'/ret)."""
        for g in segs:
            if isinstance(g, AccSeg):
                raise GiveUp('iterating an accumulated list')
            sig = self.seg_loop(g, list(g.vars), {}, body)
            if sig == 'brk' or (isinstance(sig, tuple)):
                return sig
        return None

    def seg_loop(self, g, vars_, mp, body):
        if not vars_:
            c = g.cond
            if c is not True:
                c = csub(c, mp)
                if not self.decide(c):
                    return None
            return self.norm(body(seg_at(g, mp)))
        (q, hi), rest = vars_[0], vars_[1:]
        hi = subst(hi, mp)
        if rest == [] and g.cond is not True:
            # a cond giving a lower/upper bound on q is folded into the range
            pass

        def at(e):
            m2 = dict(mp)
            m2[q] = e
            return self.seg_loop(g, rest, m2, body)
        return self.generic_loop(hi, at)

    def norm(self, sig):
        return None if sig == 'cont' else sig

    def generic_loop(self, hi, body_at):
        """Iterate index e = 0..hi-1."""
        hi = P(hi)
        n = hi.const()
        if n is not None and n <= 40:
            for e in range(int(n)):
                sig = self.norm(body_at(P(e)))
                if sig is not None:
                    return sig
            return None
        lo = ZERO
        if not self.decide(mk_lt(lo - hi)):
            return None
        for peel in range(4):
            r = self.summarise(lo, hi, body_at)
            if r is not FAIL:
                return r
            if peel == 3:
                break
            sig = self.norm(body_at(lo))
            if sig is not None:
                return sig
            lo = lo + ONE
            if not self.decide(mk_lt(lo - hi)):
                return None
        self.loop_havoc(lo, hi, body_at)
        return None

    def body_pass(self, q, lo, hi, body_at, setup, limit=200):
        """Explore one generic iteration; returns outcomes with the final values
        of modified pre-existing slots, or None."""
        b0 = birth()

        def run():
            self.assume(mk_le(lo - A(q)))
            self.assume(mk_lt(A(q) - hi))
            setup()
            self._m = len(self.journal)
            return self.norm(body_at(A(q)))

        def cap(o):
            fin = {}
            for (c, s, _old) in self.journal[self._m_stack[-1]:]:
                if c.b < b0:
                    fin[(id(c), s)] = (c, s, c.s.get(s, MISSING))
            return fin
        # journal start per run is needed inside capture
        self._m_stack = getattr(self, '_m_stack', [])
        self._m_stack.append(0)

        def run2():
            self.assume(mk_le(lo - A(q)))
            self.assume(mk_lt(A(q) - hi))
            setup()
            self._m_stack[-1] = len(self.journal)
            return self.norm(body_at(A(q)))
        try:
            return self.explore(run2, cap, limit)
        finally:
            self._m_stack.pop()

    def summarise(self, lo, hi, body_at):
        self.nloops += 1
        q = fresh_q()
        st = self.st

        def setupA():
            self.put(st, 'ev', ())
            self.put(st, 'taint', ())
        outs = self.body_pass(q, lo, hi, body_at, setupA)
        # modified slots
        slots = {}
        for o in outs:
            for k, (c, s, v) in o.extra.items():
                if c is st:
                    continue
                old = c.s.get(s, MISSING)
                if old is v:
                    continue
                if old is not MISSING and v is not MISSING and not isinstance(v, (Obj,)) and \
                        not isinstance(c, Arr) and vkey(old) == vkey(v) and not isinstance(v, (PList, PDict, Arr)):
                    continue
                slots[k] = (c, s)
        # pass B with placeholders, until the slot set is stable
        for _round in range(4):
            marks = {}
            dictA = {}

            def setupB():
                self.put(st, 'ev', ())
                self.put(st, 'taint', ())
                for k, (c, s) in slots.items():
                    old = c.s.get(s, MISSING)
                    new = self.placeholder(c, s, old, marks, outs, q, lo)
                    if new is not MISSING:
                        self.put(c, s, new)
            prev = outs
            outs = self.body_pass(q, lo, hi, body_at, setupB)
            grew = False
            for o in outs:
                for k, (c, s, v) in o.extra.items():
                    if c is st or k in slots:
                        continue
                    old = c.s.get(s, MISSING)
                    if old is v:
                        continue
                    if isinstance(v, (bool, int, str, Sc, Bo)) and old is not MISSING and vkey(old) == vkey(v):
                        continue
                    slots[k] = (c, s)
                    grew = True
            if not grew:
                break
        else:
            return FAIL
        accs = set(marks.values())
        exits, normals = [], []
        for o in outs:
            cond = mk_and(*o.conds)
            if has_acc(cond, accs):
                return FAIL
            if o.kind == 'raise' or o.val == 'brk' or isinstance(o.val, tuple):
                exits.append(cond)
            else:
                normals.append((cond, o))
        E = mk_or(*exits) if exits else False
        r = fresh_q()
        if E is not False:
            Er = csub(E, {q: A(r) + lo})
            if self.decide(mk_any([(r, hi - lo)], Er)):
                qs = fresh_q()
                self.assume(mk_le(lo - A(qs)))
                self.assume(mk_lt(A(qs) - hi))
                self.assume(csub(E, {q: A(qs)}))
                f2 = self.facts
                r2 = fresh_q()
                try:
                    self.assume(mk_not(mk_any([(r2, A(qs) - lo)], csub(E, {q: A(r2) + lo}))))
                except Infeasible:
                    raise
                ok = self.apply(lo, A(qs), q, slots, marks, self.noexit(normals, E, q, lo, A(qs)))
                if not ok:
                    self.taint('partial loop state')
                sig = self.norm(body_at(A(qs)))
                if sig is None:
                    # facts too weak to force the exit: not a feasible partition
                    raise Infeasible()
                return sig
            normals = self.noexit(normals, E, q, lo, hi)
        if not normals:
            return None
        ok = self.apply(lo, hi, q, slots, marks, normals)
        return None if ok else FAIL_APPLIED

    def noexit(self, normals, E, q, lo, hi):
        """Conditions of the normal iterations, given that none exits."""
        if len(normals) == 1:
            return [(True, normals[0][1])]
        f = self.facts.copy()
        f.add(mk_le(lo - A(q)), True)
        f.add(mk_lt(A(q) - hi), True)
        f.add(E, False)
        r = []
        for cond, o in normals:
            c = csimp(cond, f)
            if c is not False:
                r.append((c, o))
        return r

    def placeholder(self, c, s, old, marks, outs, q, lo):
        k = (id(c), s)
        if isinstance(c, Arr) and s == 'c':
            atom = marks.setdefault(k, ('acc', next_acc(), ()))
            if c.dt.name == 'bool':
                return (('p', 'accb', atom) + tuple(I(d) for d in range(c.ndim)), ())
            a = ('acc', atom[1], tuple(I(d) for d in range(c.ndim)))
            return (A(a), ())
        if isinstance(c, PList) and s == 'segs':
            atom = marks.setdefault(k, ('accl', next_acc()))
            return (AccSeg(atom, old),)
        if isinstance(c, PDict) and s == 'ents':
            marks.setdefault(k, ('accd', next_acc()))
            ents = list(old)
            for o in outs:
                f = o.extra.get(k)
                if f is None or o.kind == 'raise':
                    continue
                q2 = fresh_q()
                cond = csub(mk_and(*o.conds), {q: A(q2) + lo}) if o.conds else True
                for e in f[2]:
                    if any(e is x for x in old):
                        continue
                    mp = {q: A(q2) + lo}
                    ents.append(Ent([(q2, A(q) - lo)] + [(v, subst(h, mp)) for v, h in e.vars],
                                    mk_and(cond, csub(e.cond, mp) if e.cond is not True else True),
                                    vsub(e.key, mp), vsub(e.val, mp), e.weak))
            return tuple(ents)
        if isinstance(old, bool) or isinstance(old, Bo):
            atom = marks.setdefault(k, ('accb', next_acc()))
            return Bo(('p', 'acc', atom))
        if isinstance(old, (int, Sc)):
            atom = marks.setdefault(k, ('acc', next_acc(), ()))
            ty = old.ty if isinstance(old, Sc) else 'int'
            if ty == 'int':
                for o in outs:
                    f = o.extra.get(k)
                    if f and isinstance(f[2], Sc) and f[2].ty != 'int':
                        ty = f[2].ty
            return Sc(A(atom), ty)
        if isinstance(old, Arr):
            # rebinding of a name to a new array each iteration
            shapes = set()
            for o in outs:
                f = o.extra.get(k)
                if f and isinstance(f[2], Arr):
                    shapes.add((f[2].shape))
            if shapes != {old.shape}:
                marks.setdefault(k, ('accx', next_acc()))
                return Unk('loop-carried array of changing shape')
            atom = marks.setdefault(k, ('acc', next_acc(), ()))
            a = ('acc', atom[1], tuple(I(d) for d in range(old.ndim)))
            return Arr(old.shape, A(a) if old.dt.name != 'bool' else ('p', 'accb', atom), old.dt, old.fmt)
        if old is MISSING or old is None:
            return MISSING
        marks.setdefault(k, ('acco', next_acc()))
        return MISSING

    def apply(self, lo, hi, q, slots, marks, normals):
        """Install the effect of iterations lo..hi-1."""
        # hi > lo is known or the range may be empty (partial application)
        new = []
        allok = True
        for k, (c, s) in slots.items():
            old = c.s.get(s, MISSING)
            vals = []
            for cond, o in normals:
                if k in o.extra:
                    vals.append((cond, o.extra[k][2]))
                else:
                    vals.append((cond, SAME))
            v = self.combine(c, s, old, marks.get(k), vals, lo, hi, q)
            if v is FAIL:
                return False
            if isinstance(v, Unk):
                pass
            new.append((c, s, v))
        for c, s, v in new:
            if v is MISSING:
                self.dele(c, s)
            elif v is not SAME:
                self.put(c, s, v)
        # events
        evs = list(self.st.s['ev'])
        r = fresh_q()
        mp = {q: A(r) + lo}
        for cond, o in normals:
            cc = csub(cond, mp)
            for e in o.events:
                evs.append(Event(e.kind, tuple(vsub(d, mp) if not isinstance(d, (str, int)) else d for d in e.data)
                                 if True else e.data, e.pos,
                                 ((r, hi - lo),) + tuple((v, subst(h, mp)) for v, h in e.vars),
                                 mk_and(cc, csub(e.cond, mp) if e.cond is not True else True)))
            if o.taint:
                self.put(self.st, 'taint', self.st.s['taint'] + o.taint)
        self.put(self.st, 'ev', tuple(evs))
        return True

    def combine(self, c, s, old, mark, vals, lo, hi, q):
        real = [(cd, v) for cd, v in vals if v is not SAME]
        if not real:
            return SAME
        if isinstance(c, Arr) and s == 'c':
            return self.combine_arr(c, old, mark, vals, lo, hi, q)
        if isinstance(c, PList) and s == 'segs':
            return self.combine_list(old, mark, vals, lo, hi, q)
        if isinstance(c, PDict) and s == 'ents':
            return self.combine_dict(old, vals, lo, hi, q)
        if mark and mark[0] == 'accb':
            m = False
            for cd, v in vals:
                b = ('p', 'acc', mark) if v is SAME else (v if isinstance(v, bool) else v.c if isinstance(v, Bo) else None)
                if b is None:
                    return FAIL
                m = mk_or(m, mk_and(cd, b))
            return self.fold_bool(old, ('p', 'acc', mark), m, lo, hi, q)
        if mark and mark[0] == 'acc':
            if isinstance(old, Arr):
                return self.combine_rebound(old, mark, vals, lo, hi, q)
            ty = 'int'
            m = None
            polys = []
            for cd, v in vals:
                if v is SAME:
                    polys.append((cd, A(mark)))
                    continue
                if not isinstance(v, (int, Sc)) or isinstance(v, bool):
                    return v if isinstance(v, Unk) else FAIL
                if isinstance(v, Sc) and v.ty != 'int':
                    ty = v.ty
                polys.append((cd, self.models.poly(v)))
            m = merge_polys(polys)
            r = self.fold_poly(self.models.poly(old), mark, m, lo, hi, q)
            if isinstance(r, Unk):
                return r
            if isinstance(old, Sc) and old.ty != 'int':
                ty = old.ty
            return Sc(r, ty)
        # last-iteration semantics
        if self.known(mk_lt(lo - hi)) is not True:
            return Unk('value of a possibly empty loop')
        ks = {vkey(v) for _, v in real}
        if len(real) == len(vals) and len(ks) == 1:
            v = real[0][1]
            if v is MISSING:
                return MISSING
            if mark and has_acc_v(v, mark):
                return Unk('loop-carried value')
            return vsub(v, {q: hi - ONE})
        if len(real) == len(vals) and all(isinstance(v, (Sc, int)) and not isinstance(v, bool) for _, v in real):
            m = merge_polys([(cd, self.models.poly(v)) for cd, v in real])
            return vsub(Sc(m, real[0][1].ty if isinstance(real[0][1], Sc) else 'int'), {q: hi - ONE})
        return Unk('value of a branching loop')

    def fold_bool(self, old, acc, m, lo, hi, q):
        oldc = old if isinstance(old, bool) else old.c
        r = fresh_q()
        mp = {q: A(r) + lo}
        rng = [(r, hi - lo)]
        if m == acc:
            return SAME
        t = cond_assume(m, acc, True)
        f = cond_assume(m, acc, False)
        if has_acc(t, {acc}) or has_acc(f, {acc}):
            return Unk('loop-carried flag')
        if t is True:           # m = acc or f
            c = mk_or(oldc, mk_any(rng, csub(f, mp)))
        elif f is False:        # m = acc and t
            c = mk_and(oldc, mk_all(rng, csub(t, mp)))
        elif t == f:
            c = csub(t, {q: hi - ONE})
        else:
            return Unk('loop-carried flag')
        return c if isinstance(c, bool) else Bo(c)

    def fold_poly(self, v0, mark, m, lo, hi, q):
        """Closed form of iterating acc -> m(q, acc)."""
        c1, c0 = linear_in(m, mark)
        if c1 is None:
            s = m.single_atom()
            if s and s[0] == 'fn' and s[1] in ('max', 'min') and A(mark) in s[2]:
                rest = [x for x in s[2] if x != A(mark)]
                if not any(free(x) & {mark} for x in rest):
                    r = fresh_q()
                    from .terms import _bind
                    g = fn(s[1], *rest) if len(rest) > 1 else rest[0]
                    if not depends(g, {q}):
                        return fn(s[1], v0, g)
                    b = _bind('bnd', [(r, hi - lo)], subst(g, {q: A(r) + lo}))
                    return fn(s[1], v0, A(('fn', s[1] + 'over', (A(b),))))
            return Unk('loop-carried value')
        if any(a[0] == 'acc' for a in all_atoms(c1) | all_atoms(c0)):
            return Unk('loop-carried value depends on another one')
        r = fresh_q()
        mp = {q: A(r) + lo}
        rng = [(r, hi - lo)]
        if c1 == ONE:
            return v0 + mk_sum(rng, subst(c0, mp))
        if c0.is_zero():
            if c1.is_zero():
                return ZERO if self.known(mk_lt(lo - hi)) is True else ite(mk_lt(lo - hi), ZERO, v0)
            return v0 * mk_prod(rng, subst(c1, mp))
        if c1.is_zero():
            last = subst(c0, {q: hi - ONE})
            if self.known(mk_lt(lo - hi)) is True:
                return last
            return ite(mk_lt(lo - hi), last, v0)
        # flag-like: acc -> ite(C, g, acc)
        C = ind_to_cond(ONE - c1)
        if C is not None:
            g = None
            for mm, cc in c0.t:
                pass
            # c0 == ind(C)*g with g independent of q
            for cand in set(part_without_inds(c0)):
                if cand * ind(C) == c0 and not depends(cand, {q}):
                    g = cand
            if g is not None:
                return ite(mk_any(rng, csub(C, mp)), g, v0)
        if not depends(c1, {q}) and not depends(c0, {q}):
            pass
        return Unk('loop-carried value')

    def combine_rebound(self, old, mark, vals, lo, hi, q):
        nb = []
        dt = None
        fmt = 'nd'
        for cd, v in vals:
            if v is SAME:
                nb.append((cd, A(('acc', mark[1], tuple(I(d) for d in range(old.ndim))))))
                continue
            if not isinstance(v, Arr) or v.shape != old.shape:
                return FAIL
            b = body_of(v)
            if isinstance(b, Unk):
                return b
            nb.append((cd, b if isinstance(b, Poly) else ind(b)))
            dt = v.dt
            fmt = v.fmt
        m = merge_polys(nb)
        me = ('acc', mark[1], tuple(I(d) for d in range(old.ndim)))
        ob = body_of(old)
        if isinstance(ob, Unk):
            return ob
        r = self.fold_poly(ob if isinstance(ob, Poly) else ind(ob), me, m, lo, hi, q)
        if isinstance(r, Unk):
            return r
        return Arr(old.shape, r, dt or old.dt, fmt)

    def combine_arr(self, arr, old, mark, vals, lo, hi, q):
        return self.tidy(arr, self.combine_arr0(arr, old, mark, vals, lo, hi, q))

    def tidy(self, arr, cont):
        """Drop range conditions implied by the array's own index ranges."""
        b, ws = cont
        f = self.facts.copy()
        for d in range(arr.ndim):
            f.add(mk_le(-I(d)), True)
            f.add(mk_lt(I(d) - arr.shape[d]), True)
        new = []
        for c, v in ws:
            c = csimp(c, f)
            if c is False:
                continue
            if isinstance(v, Poly):
                v = simp(v, f)
            if c is True and not isinstance(v, Unk) and isinstance(b, Poly) == isinstance(v, Poly):
                b, new = v, []
            else:
                new.append((c, v))
        if isinstance(b, Poly):
            b = simp(b, f)
        return (b, tuple(new))

    def combine_arr0(self, arr, old, mark, vals, lo, hi, q):
        me = A(('acc', mark[1], tuple(I(d) for d in range(arr.ndim))))
        isb = arr.dt.name == 'bool'
        if isb:
            me = ('p', 'accb', mark) + tuple(I(d) for d in range(arr.ndim))
        writes = []
        full = []
        for cd, v in vals:
            if v is SAME:
                full.append((cd, me))
                continue
            b, ws = v
            if isinstance(b, Unk):
                return (b, ())
            if b == me:
                for c, val in ws:
                    writes.append((mk_and(cd, c), val))
                full.append((cd, me))
            else:
                bb = b
                for c, val in ws:
                    bb = ite(c, val if isinstance(val, Poly) else ind(val), bb if isinstance(bb, Poly) else ind(bb))
                full.append((cd, bb))
        base, ows = old
        if any(b != me for _, b in full):
            if isb:
                return (Unk('boolean array rewritten in a loop'), ())
            tmp = Arr(arr.shape, base, arr.dt)
            tmp.s['c'] = old
            ob = body_of(tmp)
            if isinstance(ob, Unk):
                return (ob, ())
            if writes:
                return (Unk('mixed array writes in a loop'), ())
            m = merge_polys(full)
            r = self.fold_poly(ob, me.single_atom(), m, lo, hi, q)
            return (r, ())
        new = list(ows)
        for c, val in writes:
            if isinstance(val, Unk):
                return (val, ())
            if c is True:
                lits = []
            else:
                lits = list(c[1]) if c[0] == 'and' else [c]
            sol = None
            for l in lits:
                if l[0] == 'eq' and q in cfree(l):
                    from .terms import solve_eq
                    x = solve_eq(l[1], q)
                    if x is not None and any(a[0] == 'i' for a in free(x)):
                        sol = x
                        break
            if sol is None:
                if not (q in cfree(c) if not isinstance(c, bool) else False) and \
                        not (q in (free(val) if isinstance(val, Poly) else cfree(val))):
                    # same write each iteration
                    new.append((c, val))
                    continue
                # increment-style writes: acc + f(q) under a q-independent cond
                if isinstance(val, Poly) and (isinstance(c, bool) or q not in cfree(c)):
                    tmp = Arr(arr.shape, base, arr.dt)
                    tmp.s['c'] = (base, tuple(new))
                    ob = body_of(tmp)
                    if not isinstance(ob, Unk):
                        r = self.fold_poly(ob, me.single_atom(), val, lo, hi, q)
                        if not isinstance(r, Unk):
                            new.append((c, r))
                            continue
                return (Unk('array write with unsolved position'), ())
            mp = {q: sol}
            c2 = mk_and(csub(c, mp), mk_le(lo - sol), mk_lt(sol - hi))
            v2 = subst(val, mp) if isinstance(val, Poly) else csub(val, mp)
            # reads of the array's own earlier content
            accs = [a for a in all_atoms(v2) if a[0] == 'acc' and a[1] == mark[1]]
            if accs:
                tmp = Arr(arr.shape, base, arr.dt)
                tmp.s['c'] = (base, tuple(ows))
                ob = body_of(tmp)
                if isinstance(ob, Unk):
                    return (ob, ())
                sub_ = {}
                for a in accs:
                    idx = a[2]
                    same = all(idx[d] == I(d) for d in range(arr.ndim))
                    if not same:
                        f = self.facts.copy()
                        for d in range(arr.ndim):
                            f.add(mk_le(-I(d)), True)
                            f.add(mk_lt(I(d) - arr.shape[d]), True)
                        f.add(c2, True)
                        hit = False
                        for c3, _v in writes:
                            s3 = csub(c3, mp)
                            inside = csub(c2, {('i', d): idx[d] for d in range(arr.ndim)})
                            if f.decide(inside) is not False:
                                hit = True
                        if hit:
                            return (Unk('loop reads array cells it may have written'), ())
                    sub_[a] = bsub(ob, {('i', d): idx[d] for d in range(arr.ndim)})
                v2 = replace_atoms(v2, sub_)
            new.append((c2, v2))
        return (base, tuple(new))

    def combine_list(self, old, mark, vals, lo, hi, q):
        r = fresh_q()
        mp = {q: A(r) + lo}
        per = []
        for cd, v in vals:
            if v is SAME:
                per.append((cd, ()))
                continue
            if not v or not isinstance(v[0], AccSeg) or v[0].slot != mark:
                return FAIL
            per.append((cd, v[1:]))
        cnts = {len(x) for _, x in per}
        if cnts == {0}:
            return SAME
        if all(len(x) <= 1 for _, x in per):
            segs = []
            hit = [(cd, x[0]) for cd, x in per if x]
            simple = all(not g.vars and g.cond is True for _, g in hit)
            if simple and len(hit) > 1:
                mv = merge_vals([(cd, g.val) for cd, g in hit], self)
                if mv is None:
                    mv = Unk('list of branch-dependent elements')
                cond = mk_or(*[cd for cd, _ in hit]) if len(hit) < len(per) else True
                segs.append(Seg([(r, hi - lo)], csub(cond, mp) if cond is not True else True, vsub(mv, mp)))
            elif len(hit) == 1:
                cd, g = hit[0]
                if len(per) == 1:
                    cd = True if cd is True else cd
                # when the single outcome covers everything its condition is implied
                cond = mk_and(cd, g.cond)
                cond = csub(cond, mp) if cond is not True else True
                segs.append(Seg([(r, hi - lo)] + [(v, subst(h, mp)) for v, h in g.vars], cond, vsub(g.val, mp)))
            else:
                return FAIL
            return tuple(old) + tuple(segs)
        if len(per) == 1:
            # several elements per iteration: keep as pattern list
            cd, xs = per[0]
            return tuple(old) + (Seg([(r, hi - lo)], True, Unk('several elements per iteration')),)
        return FAIL

    def combine_dict(self, old, vals, lo, hi, q):
        ents = list(old)
        for cd, v in vals:
            if v is SAME:
                continue
            for e in v:
                if any(e is x for x in old):
                    continue
                if any((q2, h) for q2, h in e.vars if q in free(h)) and depends_pre(e, q, lo):
                    continue
                r = fresh_q()
                mp = {q: A(r) + lo}
                ents.append(Ent([(r, hi - lo)] + [(x, subst(h, mp)) for x, h in e.vars],
                                mk_and(csub(cd, mp) if cd is not True else True,
                                       csub(e.cond, mp) if e.cond is not True else True),
                                vsub(e.key, mp), vsub(e.val, mp), e.weak))
        return tuple(ents)

    def loop_havoc(self, lo, hi, body_at):
        """Give up on a loop: everything it may modify becomes unknown."""
        q = fresh_q()
        self.taint('loop not summarised')

        def setup():
            self.put(self.st, 'ev', ())
            self.put(self.st, 'taint', ())
        outs = self.body_pass(q, lo, hi, body_at, setup)
        for o in outs:
            for k, (c, s, v) in o.extra.items():
                if c is self.st:
                    continue
                if isinstance(c, Arr) and s == 'c':
                    self.put(c, s, (Unk('loop'), ()))
                elif isinstance(c, PList) and s == 'segs':
                    self.put(c, s, (Seg([(fresh_q(), sym('unklen', 'int'))], True, Unk('loop')),))
                elif isinstance(c, PDict) and s == 'ents':
                    self.put(c, s, c.s[s] + (Ent((), True, Unk('loop'), Unk('loop'), 'unk'),))
                else:
                    self.put(c, s, Unk('loop'))


FAIL = object()
FAIL_APPLIED = FAIL
SAME = object()
_acc = [0]


def next_acc():
    _acc[0] += 1
    return _acc[0]


def depends_pre(e, q, lo):
    """Entry stemming from the assumed earlier iterations (range q - lo)."""
    return any(h == A(q) - lo for _, h in e.vars)


def funcs_in(v):
    if isinstance(v, Func):
        return [v]
    if isinstance(v, Prop):
        return [f for f in (v.fget, v.fset) if isinstance(f, Func)]
    if isinstance(v, CachedProp):
        return funcs_in(v.f)
    if isinstance(v, Native) and hasattr(v, 'wrapped'):
        return funcs_in(v.wrapped)
    if isinstance(v, (StaticM, ClassM)):
        return [v.f] if isinstance(v.f, Func) else []
    return []


def seg_at(g, mp):
    if not mp:
        return g.val
    k = tuple(sorted(((q, e) for q, e in mp.items()), key=rk))
    if k in g.memo:
        return g.memo[k]
    v = vsub(g.val, mp)
    g.memo[k] = v
    return v


def has_acc(c, accs):
    if isinstance(c, bool) or c is None:
        return False
    return _find_acc(c)


def _find_acc(x):
    if isinstance(x, Poly):
        return any(a[0] == 'acc' or _find_acc(a) for a in x.atoms())
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in ('acc', 'accb', 'accl', 'acco', 'accx'):
            return True
        if len(x) > 1 and x[0] == 'p' and x[1] in ('acc', 'accb'):
            return True
        return any(_find_acc(y) for y in x)
    return False


def has_acc_v(v, mark):
    return _find_acc(vkey(v))


def merge_polys(ps):
    """Merge guarded scalars (guards exclusive and exhaustive)."""
    if len(ps) == 1:
        return ps[0][1]
    if len({p for _, p in ps}) == 1:
        return ps[0][1]
    # use the last as default so the guards' complement is never needed
    r = P(ps[-1][1]) if isinstance(ps[-1][1], Poly) else ind(ps[-1][1])
    for c, p in reversed(ps[:-1]):
        p = p if isinstance(p, Poly) else ind(p)
        r = ite(c, p, r)
    return r


def merge_vals(vs, ip):
    ks = {vkey(v) for _, v in vs}
    if len(ks) == 1:
        return vs[0][1]
    if all(isinstance(v, (int, Sc)) and not isinstance(v, bool) for _, v in vs):
        ty = 'int'
        for _, v in vs:
            if isinstance(v, Sc) and v.ty != 'int':
                ty = v.ty
        return Sc(merge_polys([(c, ip.models.poly(v)) for c, v in vs]), ty)
    if all(isinstance(v, (bool, Bo)) for _, v in vs):
        m = False
        for c, v in vs:
            m = mk_or(m, mk_and(c, v if isinstance(v, bool) else v.c))
        return m if isinstance(m, bool) else Bo(m)
    if all(isinstance(v, Arr) for _, v in vs) and len({v.shape for _, v in vs}) == 1 \
            and len({v.dt for _, v in vs}) == 1:
        try:
            return Arr(vs[0][1].shape, merge_polys([(c, nbody(v)) for c, v in vs]), vs[0][1].dt)
        except UnkBody:
            return None
    if all(isinstance(v, tuple) for _, v in vs) and len({len(v) for _, v in vs}) == 1:
        out = []
        for k in range(len(vs[0][1])):
            m = merge_vals([(c, v[k]) for c, v in vs], ip)
            if m is None:
                return None
            out.append(m)
        return tuple(out)
    return None


def linear_in(m, atom):
    """m = c1*atom + c0; (None, None) if not linear."""
    c1, c0 = {}, {}
    from .terms import _from
    for mono, c in m.t:
        d = dict(mono)
        if atom in d:
            if d[atom] != 1:
                return None, None
            del d[atom]
            k = tuple(sorted(d.items(), key=lambda kv: rk(kv[0])))
            c1[k] = c1.get(k, 0) + c
        else:
            c0[mono] = c
    p1, p0 = _from({k: v for k, v in c1.items() if v}), _from(c0)
    if atom in all_atoms(p1) or atom in all_atoms(p0):
        return None, None
    return p1, p0


def ind_to_cond(p):
    """Condition whose indicator is p, if recognisable."""
    if len(p.t) == 1 and p.t[0][1] == 1:
        lits = []
        for a, e in p.t[0][0]:
            if a[0] != 'ind' or e != 1:
                return None
            lits.append(a[1])
        return mk_and(*lits)
    q = ONE - p
    if len(q.t) == 1 and q.t[0][1] == 1 and q.t[0][0] and all(a[0] == 'ind' for a, _ in q.t[0][0]):
        return mk_not(mk_and(*[a[1] for a, _ in q.t[0][0]]))
    return None


def part_without_inds(p):
    d = {}
    from .terms import _from
    for m, c in p.t:
        mm = tuple((a, e) for a, e in m if a[0] != 'ind')
        d.setdefault(mm, c)
        d[mm] = c
    if d:
        yield _from(d)
    for mm, c in d.items():
        yield _from({mm: c})


def cond_assume(c, lit, val):
    """Replace a literal inside a condition by a constant."""
    if isinstance(c, bool):
        return c
    if c == lit:
        return val
    if c[0] == 'not':
        return mk_not(cond_assume(c[1], lit, val))
    if c[0] == 'and':
        return mk_and(*[cond_assume(x, lit, val) for x in c[1]])
    if c[0] == 'or':
        return mk_or(*[cond_assume(x, lit, val) for x in c[1]])
    return c


def replace_atoms(p, sub_):
    if not sub_:
        return p
    r = ZERO
    for m, c in p.t:
        t = P(c)
        for a, e in m:
            if a in sub_:
                t = t * power(sub_[a], e)
            elif any(x in sub_ for x in all_atoms(a)):
                t = t * power(_rep_atom(a, sub_), e)
            else:
                t = t * power(A(a), e)
        r = r + t
    return r


def _rep_atom(a, sub_):
    def go(x):
        if isinstance(x, Poly):
            return replace_atoms(x, sub_)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    na = go(a)
    from .terms import rebuild
    if na[0] == 'pw':
        return na[1]
    return rebuild(na, {('__none__',): ZERO})
