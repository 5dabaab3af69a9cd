"""Obligations: comparing what the analysis found on each path with what the
property demands."""
import signal
import sys
import time
import traceback
from .interp import PyRaise, Infeasible, GiveUp, AnchorLost, Out
from .terms import *
from .terms import Facts
from .values import *
from . import models as M
from .evalt import Val, EvalFail, valuations, KNOWN_FN, rnd

OK_, UND, BAD = 'ok', 'undecided', 'violation'


# ---------------------------------------------------------------- outcomes
class Want:
    def check(self, ck, o, fresh=None):
        raise NotImplementedError


class Raises(Want):
    def __init__(self, *names):
        self.names = names

    def static(self, ck, o):
        if o.kind != 'raise':
            return False
        mro = [c.name.split('.')[-1] for c in o.val.cls.mro]
        return any(n in mro for n in self.names)

    def at(self, ck, o, v):
        return None if self.static(ck, o) else describe(o)

    def __str__(self):
        return 'raises ' + '/'.join(self.names)


class Anything(Want):
    def static(self, ck, o):
        return True

    def at(self, ck, o, v):
        return None

    def __str__(self):
        return 'anything'


class Returns(Want):
    """Returns normally, whatever the value."""

    def static(self, ck, o):
        return o.kind == 'ok'

    def at(self, ck, o, v):
        return None if o.kind == 'ok' else describe(o)

    def __str__(self):
        return 'returns normally'


class Pred(Want):
    """Static predicate on the outcome: fn(o) -> True / False / None (unknown)."""

    def __init__(self, fn_, text):
        self.fn, self.text = fn_, text

    def static(self, ck, o):
        return self.fn(o)

    def at(self, ck, o, v):
        r = self.fn(o)
        if r is None:
            raise Undecided('unknown value')
        return None if r else describe(o)

    def __str__(self):
        return self.text


class ScIs(Want):
    def __init__(self, p):
        self.p = P(p)

    def got(self, o):
        if o.kind != 'ok':
            return False
        x = scalar_of(o.val)
        return x

    def static(self, ck, o):
        g = self.got(o)
        if g is None or g is False:
            return g
        return same_poly(g, self.p, o.facts)

    def at(self, ck, o, v):
        g = self.got(o)
        if g is False:
            return describe(o)
        if g is None:
            raise Undecided('unknown value')
        if alien(g, self.p):
            raise Undecided('uninterpreted functions in the result')
        a, b = v.num(g), v.num(self.p)
        if differ(a, b):
            return 'value %s = %s instead of %s' % (show(g)[:300], num(a), num(b))

    def __str__(self):
        return 'value ' + show(self.p)[:300]


class BoolIs(Want):
    def __init__(self, c):
        self.c = c

    def got(self, o):
        if o.kind != 'ok':
            return False
        x = o.val
        if isinstance(x, bool):
            return ('b', x)
        if isinstance(x, Bo):
            return ('b', x.c)
        if isinstance(x, Arr) and x.ndim == 0 and x.dt.name == 'bool':
            return ('b', body_of(x))
        if isinstance(x, Unk):
            return None
        return False

    def static(self, ck, o):
        g = self.got(o)
        if not g:
            return g
        if g[1] == self.c:
            return True
        a, b = o.facts.decide(g[1]), o.facts.decide(self.c)
        if a is not None and a == b:
            return True
        return None

    def at(self, ck, o, v):
        g = self.got(o)
        if g is False:
            return describe(o)
        if g is None:
            raise Undecided('unknown value')
        a, b = v.c(g[1]), v.c(self.c)
        if a != b:
            return 'answer %s instead of %s' % (a, b)

    def __str__(self):
        return 'answer [%s]' % show_cond(self.c)[:300]


class ArrIs(Want):
    """A dense array of the given shape and contents (body over ('i',k))."""

    def __init__(self, shape, body, dt=None, fmt='nd', region=None):
        self.shape = tuple(P(s) for s in shape)
        self.body = body
        self.dt = dt
        self.fmt = fmt
        self.region = region          # only entries satisfying this condition

    def pre(self, o):
        """False: certainly wrong kind; None: unknown; else the array."""
        if o.kind != 'ok':
            return False
        x = o.val
        if isinstance(x, Unk):
            return None
        if isinstance(x, RegArr):
            return None
        if not isinstance(x, Arr):
            if isinstance(x, (Opq, Obj)) and not getattr(x, 'cls', None):
                return None
            return False
        b = body_of(x)
        if isinstance(b, Unk):
            return None
        return x

    def static(self, ck, o):
        x = self.pre(o)
        if x is None or x is False:
            return x
        if x.fmt != self.fmt or x.ndim != len(self.shape):
            return False
        if self.dt and x.dt.name not in (self.dt if isinstance(self.dt, tuple) else (self.dt,)):
            return False
        f = o.facts.copy()
        for s, w in zip(x.shape, self.shape):
            if not same_poly(s, w, o.facts):
                return None
        for k, s in enumerate(self.shape):
            f.add(mk_le(-I(k)), True)
            f.add(mk_lt(I(k) - s), True)
        if self.region is not None:
            f.add(self.region, True)
        b = body_of(x)
        if not isinstance(b, Poly):
            b = ind(b)
        cs = [s.const() for s in self.shape]
        if all(c is not None and c <= 5 for c in cs) and cs:
            import itertools
            for pt in itertools.product(*[range(int(c)) for c in cs]):
                mp = {('i', k): P(v) for k, v in enumerate(pt)}
                if self.region is not None and o.facts.decide(csub(self.region, mp)) is False:
                    continue
                if not same_poly(subst(b, mp), subst(self.body, mp), o.facts):
                    return None
            return True
        return True if same_poly(b, self.body, f) else None

    def at(self, ck, o, v):
        x = self.pre(o)
        if x is False:
            return describe(o)
        if x is None:
            raise Undecided('unknown value')
        if x.fmt != self.fmt:
            return 'a %s matrix instead of a %s one' % (x.fmt, self.fmt)
        if x.ndim != len(self.shape):
            return '%d-dimensional instead of %d-dimensional' % (x.ndim, len(self.shape))
        if self.dt and x.dt.name not in (self.dt if isinstance(self.dt, tuple) else (self.dt,)):
            return 'dtype %s instead of %s' % (x.dt.name, self.dt)
        d1 = tuple(v.iv(s) for s in x.shape)
        d2 = tuple(v.iv(s) for s in self.shape)
        if d1 != d2:
            if any(alien(s, w) for s, w in zip(x.shape, self.shape)):
                raise Undecided('uninterpreted shape')
            return 'shape %s = %s instead of %s' % ('x'.join(show(s) for s in x.shape)[:200], d1, d2)
        b = body_of(x)
        if not isinstance(b, Poly):
            b = ind(b)
        al = alien(b, self.body)
        ix = [range(d) for d in d2]
        import itertools
        total = 1
        for x_ in d2:
            total *= x_
        if total > 90:
            pts = set()
            rr = v.r
            for _ in range(12):
                pts.add(tuple(rr.randrange(x_) for x_ in d2))
                e = rr.randrange(min(d2))
                pts.add(tuple(e for x_ in d2))
                pts.add(tuple(rr.choice([0, 1, x_ - 1, x_ - 2]) % x_ for x_ in d2))
            pts = sorted(pts)
        else:
            pts = itertools.product(*ix)
        for pt in pts:
            for k, i in enumerate(pt):
                v.env[('i', k)] = i
            try:
                if self.region is not None and not v.c(self.region):
                    continue
                p1, p2 = v.num(b), v.num(self.body)
                if differ(p1, p2):
                    if al:
                        raise Undecided('uninterpreted functions in the result')
                    return 'entry %s is %s [%s] instead of %s [%s]' % (
                        list(pt), num(p1), show(simp(b, o.facts))[:400], num(p2), show(self.body)[:300])
            finally:
                for k in range(len(pt)):
                    v.env.pop(('i', k), None)

    def __str__(self):
        return 'array (%s): %s' % (', '.join(show(s) for s in self.shape), show(self.body)[:300])


class Undecided(Exception):
    pass


def num(x):
    return '%.6g' % x if isinstance(x, float) else str(x)


def differ(a, b):
    if a != a or b != b:
        return (a != a) != (b != b)
    if a in (math.inf, -math.inf) or b in (math.inf, -math.inf):
        return a != b
    return abs(a - b) > 1e-6 * (1 + abs(a) + abs(b))


def describe(o):
    if o.kind == 'raise':
        return 'raises %s (raised at %s:%s)' % (o.val.cls.name.split('.')[-1],
                                               (o.val.info or ('', '?'))[1], (o.val.info or ('', '', '?'))[2])
    return 'returns %s' % repr(o.val)[:300]


def scalar_of(x):
    """Poly of a number-like value; None unknown; False not a number."""
    if isinstance(x, bool):
        return False
    if isinstance(x, int):
        return P(x)
    if isinstance(x, float):
        return P(F(x))
    if isinstance(x, Sc):
        return x.p
    if isinstance(x, Arr):
        if x.ndim == 0:
            b = body_of(x)
            return None if isinstance(b, Unk) else (b if isinstance(b, Poly) else ind(b))
        return False
    if isinstance(x, (Unk, Opq)):
        return None
    return False


_heads = {}


def heads(x):
    s = set()
    _h(x, s)
    return s


def _h(x, s):
    if isinstance(x, Poly):
        for a in all_atoms(x):
            if a[0] == 'fn':
                if a[1] not in KNOWN_FN:
                    s.add(('fn', a[1]))
            elif a[0] == 'idx':
                b = a[1]
                if isinstance(b, tuple) and b and isinstance(b[0], str) and len(b) > 1 and \
                        b[0] not in ('int', 'su', 'sx', 'ravel', 'uninit', 'sorted', 'suf'):
                    s.add(('idx', b[0]))
            elif a[0] in ('acc', 'bnd', 'opq'):
                if a[0] == 'opq' and isinstance(a[1], tuple) and a[1] and a[1][0] in ('su', 'suf'):
                    continue
                s.add((a[0],))
            elif a[0] == 'kern':
                for r in a[2:4]:
                    if isinstance(r, tuple) and r and r[0] == 'rowx':
                        s.add(('rowx',))


def alien(got, want):
    """Does got contain uninterpreted heads that the wanted term does not?"""
    g, w = heads(got), heads(want)
    if ('bnd',) in g:
        g.discard(('bnd',))          # interpreted inside max/min/argmax
    return g - w


def same_poly(a, b, facts):
    if a == b:
        return True
    try:
        if equal(a, b):
            return True
        a2, b2 = simp(a, facts), simp(b, facts)
        if a2 == b2 or equal(a2, b2):
            return True
        mp = eqs(facts)
        if mp:
            a3, b3 = subst(a2, mp), subst(b2, mp)
            if a3 == b3 or equal(simp(a3, facts), simp(b3, facts)):
                return True
    except TooComplex:
        return False
    return False


def eqs(facts):
    """Substitution from known linear equalities of symbols."""
    mp = {}
    for l, v in facts.lit.items():
        if v is True and l[0] == 'eq':
            p = l[1]
            for m, c in p.t:
                if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'sym' and c in (1, -1):
                    a = m[0][0]
                    rest = A(a) - p * P(1 / c)
                    if a in free(rest):
                        continue
                    mp[a] = rest
                    break
    return mp


# ---------------------------------------------------------------- checker
class TimeUp(GiveUp):
    pass


class timer:
    """Gives up on the enclosed analysis after the given time.  Nested uses
    keep the outer limit."""
    active = False

    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        self.mine = not timer.active
        if self.mine:
            timer.active = True
            signal.signal(signal.SIGALRM, self.fire)
            signal.setitimer(signal.ITIMER_REAL, self.secs, 0.5)

    @staticmethod
    def fire(*a):
        raise TimeUp('time limit')

    def __exit__(self, *a):
        if self.mine:
            signal.setitimer(signal.ITIMER_REAL, 0)
            timer.active = False


class Checker:
    def __init__(self, prop, env):
        self.prop = prop
        self.env = env
        self.ip = env.ip
        self.obl = []          # (label, n_paths, proved, sampled, undecided)
        self.viol = []
        self.undec = []
        self.notes = []
        self.kw = {}
        self.tier = 'quick'
        self.functions = set()
        self.t0 = time.time()
        self.enough = 25
        self.timeouts = 0
        self.secs = None

    def single(self):
        """Seconds for one scenario."""
        if self.secs:
            return self.secs
        return (25 if self.timeouts < 2 else 5) if self.tier == 'quick' else 200 if self.timeouts < 3 else 20

    def total(self):
        """Seconds for the whole check."""
        return 420 if self.tier == 'quick' else 5000

    def violation(self, label, why, o=None, witness=None):
        rec = {'label': label, 'why': why}
        if o is not None:
            rec['path'] = [show_cond(c)[:300] for c in o.conds]
            rec['where'] = where(o)
        if witness:
            rec['witness'] = witness
        self.viol.append(rec)

    def undecided(self, label, why):
        self.undec.append((label, str(why)[:300]))

    def explore(self, label, fn_, limit=None, capture=None):
        """Paths of a scenario; None when the analysis gives up."""
        t = time.time()
        if len(self.viol) >= self.enough:
            self.undecided(label, 'not examined: enough violations found')
            return None
        if t - self.t0 > self.total():
            self.undecided(label, 'not examined: time limit of the check')
            return None
        ip = self.ip
        saved = len(ip.journal), ip.facts, len(ip.ctxs), ip.depth, list(ip.frames), list(ip.exc_stack), ip.pos
        try:
            with timer(self.single()):
                outs = self.env.explore(fn_, capture, limit)
        except AnchorLost:
            raise
        except TimeUp:
            # may have been interrupted anywhere: restore the entry state again
            ip.rollback(saved[0])
            ip.facts = saved[1]
            del ip.ctxs[saved[2]:]
            ip.depth, ip.frames, ip.exc_stack, ip.pos = saved[3], saved[4], saved[5], saved[6]
            self.timeouts += 1
            self.undecided(label, 'gave up: time limit')
            return None
        except GiveUp as e:
            self.undecided(label, 'gave up: %s' % e)
            return None
        except RecursionError:
            self.undecided(label, 'recursion')
            return None
        except Exception as e:
            if self.kw.get('debug'):
                traceback.print_exc()
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.undecided(label, 'analyser error %s: %s at %s:%s' % (
                type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno))
            return None
        finally:
            self.last_time = time.time() - t
        return outs

    def case(self, label, fn_, spec, limit=None, pre=None, vals=None, want_n=None):
        """Explore fn_ and compare each path with the specification.

        spec: Want, or list of (condition, Want) tried in order, or a function
        of the path returning one of those."""
        outs = self.explore(label, fn_, limit)
        if outs is None:
            return None
        npaths = proved = sampled = und = 0
        for o in outs:
            npaths += 1
            r = self.judge(label, o, spec, pre, vals)
            if r == 'proved':
                proved += 1
            elif r == 'sampled':
                sampled += 1
            elif r == UND:
                und += 1
        self.obl.append((label, npaths, proved, sampled, und))
        return outs

    def fork(self, jobs):
        """Run independent parts of a rule in parallel processes."""
        import os
        import pickle
        w = min(len(jobs), os.cpu_count() or 1)
        if w <= 1 or self.kw.get('debug'):
            for j in jobs:
                j()
            return
        sys.stdout.flush()
        sys.stderr.flush()
        # job numbers are handed out through a pipe, results come back through one each
        qr, qw = os.pipe()
        for k in range(len(jobs)):
            os.write(qw, b'%05d' % k)
        os.close(qw)
        kids = []
        for _ in range(w):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                out = []
                try:
                    while True:
                        b = os.read(qr, 5)
                        if len(b) < 5:
                            break
                        self.obl, self.viol, self.undec, self.notes = [], [], [], []
                        err = None
                        try:
                            jobs[int(b)]()
                        except AnchorLost as e:
                            err = ('anchor', str(e))
                        except BaseException as e:
                            err = ('error', traceback.format_exc())
                        out.append((int(b), self.obl, self.viol, self.undec, self.notes, self.ip.fseen, err))
                    with os.fdopen(wr, 'wb') as f:
                        pickle.dump(out, f)
                finally:
                    os._exit(0)
            os.close(wr)
            kids.append((pid, r))
        os.close(qr)
        res = []
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                raise RuntimeError('a worker of the analysis died')
            res += pickle.loads(data)
        for k, obl, viol, und, notes, fs, err in sorted(res, key=lambda x: x[0]):
            if err:
                if err[0] == 'anchor':
                    raise AnchorLost(err[1])
                raise RuntimeError(err[1])
            self.obl += obl
            self.viol += viol
            self.undec += und
            self.notes += notes
            self.ip.fseen |= fs

    def multi(self, label, setup, results, vals=None):
        """Run setup once per path, then each result on a copy of the state
        it leaves.  results: list of (name, function of the state, spec)."""
        found = {}

        def capture(o):
            oc = o.conds
            if o.kind == 'raise':
                o.val = freeze(o.val)
                for name, _, _ in results:
                    found.setdefault(name, []).append(o)
                return
            k = o.val
            for name, f, _ in results:
                for r in self.ip.explore(lambda: f(k)):
                    r.conds = oc + r.conds
                    found.setdefault(name, []).append(r)
        if self.explore(label, setup, capture=capture) is None:
            return None
        for name, _, spec in results:
            lab = '%s: %s' % (label, name)
            outs = found.get(name, ())
            c = {'proved': 0, 'sampled': 0, UND: 0, BAD: 0}
            for o in outs:
                c[self.judge(lab, o, spec, None, vals)] += 1
            self.obl.append((lab, len(outs), c['proved'], c['sampled'], c[UND]))
        return found

    def judge(self, label, o, spec, pre=None, vals=None):
        try:
            with timer(self.single()):
                return self.judge_(label, o, spec, pre, vals)
        except GiveUp as e:
            self.undecided(label, 'gave up: %s' % e)
            return UND

    def judge_(self, label, o, spec, pre=None, vals=None):
        if o.taint:
            self.undecided(label, 'analysis lost track: %s' % (o.taint[0],))
            return UND
        try:
            sp = spec(o) if callable(spec) and not isinstance(spec, Want) else spec
        except Undecided as e:
            self.undecided(label, e)
            return UND
        if sp is None:
            self.undecided(label, 'no specification')
            return UND
        if isinstance(sp, Want):
            sp = [(True, sp)]
        # statically decided case of the specification
        sel = None
        for c, w in sp:
            r = o.facts.decide(c)
            if r is True:
                sel = w
                break
            if r is None:
                break
        if sel is not None:
            try:
                r = sel.static(self, o)
            except (TooComplex, Undecided):
                r = None
            if r is True:
                return 'proved'
        # random interpretation; then directed at the conditions inside the result
        n = 0
        und = None
        tries, want = (150, 18) if self.tier == 'quick' else (600, 60)
        kw = dict(self.kw.get('vals') or {})
        kw.update(vals or {})
        extra = [pre] if pre is not None else []
        rounds = [(extra, tries, want)]
        for c in inner_conds(o, 10 if self.tier == 'quick' else 40):
            rounds.append((extra + [c], 30, 4))
            rounds.append((extra + [mk_not(c)], 30, 4))
        loose = any(f[0] == 'q' for c in o.conds for f in cfree(c))
        for c in () if loose else spec_conds(o, sp, 6 if self.tier == 'quick' else 16):
            rounds.append((extra + [c], 30, 3))
        for ex, tr, wn in rounds:
            for v in valuations(o.facts, ex, tries=tr, want=wn, **kw):
                try:
                    w = None
                    for c, x in sp:
                        if v.c(c):
                            w = x
                            break
                    if w is None:
                        continue
                    why = w.at(self, o, v)
                except EvalFail:
                    continue
                except Undecided as e:
                    und = e
                    break
                except RecursionError:
                    continue
                n += 1
                if why:
                    self.violation(label, '%s; required: %s' % (why, w), o,
                                   {str(a[1]): v.syms[a] for a in v.syms})
                    return BAD
            if und:
                break
        if und:
            self.undecided(label, und)
            return UND
        if n >= 3:
            unknown = None
            for c, x in sp:
                pass
            if isinstance(o.val, Unk):
                self.undecided(label, 'unknown value %s' % (o.val.why,))
                return UND
            return 'sampled'
        self.undecided(label, 'no point on the path found: ' + ' & '.join(show_cond(c)[:120] for c in o.conds)[:280])
        return UND


def spec_conds(o, sp, limit):
    """The cases of the specification that the path leaves open, one alternative
    of a disjunction at a time."""
    out = []
    for c, _ in sp:
        if c is True or c is False or o.facts.decide(c) is not None:
            continue
        alts = list(c[1]) if c[0] == 'or' else [c]
        for a in alts:
            if o.facts.decide(a) is None:
                out.append(a)
        if len(out) >= limit:
            break
    return out[:limit]


def inner_conds(o, limit):
    """Conditions inside the result of a path, instantiated at small indices."""
    if o.kind != 'ok':
        return []
    x = o.val
    p = None
    if isinstance(x, Arr):
        p = body_of(x)
    elif isinstance(x, Sc):
        p = x.p
    if not isinstance(p, Poly):
        return []
    seen, out = set(), []
    for a in all_atoms(p):
        if a[0] != 'ind':
            continue
        for ix in (0, 1):
            mp = {}
            for f in cfree(a[1]):
                if f[0] in ('L', 'i'):
                    mp[f] = P(ix if f[0] == 'i' else 0)
            c = csub(a[1], mp) if mp else a[1]
            if c is True or c is False or c in seen:
                continue
            seen.add(c)
            out.append(c)
    out.sort(key=repr)
    return out[:limit]


def where(o):
    p = o.val.info[1:] if o.kind == 'raise' and getattr(o.val, 'info', None) and o.val.info[0] == 'exc' else o.pos
    return ':'.join(str(x) for x in p)
