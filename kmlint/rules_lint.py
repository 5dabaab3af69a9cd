"""C24: no internal errors.  Whole-program name, attribute, arity and format
checks over every module, plus the outcomes of printing objects and of accesses
without data in every state."""
import ast
import builtins
import os
import string
import symtable
import warnings
from .core import *
from .harness import *
from .registry import rule, call, meth, attr, new
from .rules_ops import el, kset, attached, finite
from .rules_km import ALL, isc, fl, op_table

n, m, d = N, M_, D
SPECIAL = {'__name__', '__file__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__builtins__', '__class__',
           '__annotations__', '__dict__', '__module__', '__qualname__'}


def sources(root):
    for dp, dn, fs in os.walk(os.path.join(root, 'kernelmethods')):
        dn[:] = sorted(x for x in dn if x not in ('tests', '__pycache__'))
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                mod = rel[:-3].replace(os.sep, '.')
                if mod.endswith('.__init__'):
                    mod = mod[:-9]
                yield mod, rel, open(p, encoding='utf-8').read()


class Mod:
    def __init__(self, name, rel, src):
        self.name, self.rel, self.src = name, rel, src
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(src)
            self.sym = symtable.symtable(src, rel, 'exec')
        self.star = any(isinstance(x, ast.ImportFrom) and any(a.name == '*' for a in x.names) for x in ast.walk(self.tree))
        self.parent = {}
        for x in ast.walk(self.tree):
            for c in ast.iter_child_nodes(x):
                self.parent[c] = x
        self.names = {s.get_name() for s in self.sym.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        for x in ast.walk(self.tree):
            if isinstance(x, ast.Global):
                self.names |= set(x.names)
        self.dyn = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('globals', 'exec', 'eval', 'vars')
                       for x in ast.walk(self.tree))
        self.defs = {x.name: x for x in self.tree.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))}

    def guarded(self, node, names):
        """Is the node inside a try whose handlers catch one of the errors?"""
        x = node
        while x in self.parent:
            p = self.parent[x]
            if isinstance(p, ast.Try) and x in p.body:
                for h in p.handlers:
                    if h.type is None:
                        return True
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    for t in ts:
                        if isinstance(t, ast.Name) and t.id in names or isinstance(t, ast.Attribute) and t.attr in names:
                            return True
            x = p
        return False

    def where(self, node):
        f, x = [], node
        while x in self.parent:
            x = self.parent[x]
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                f.append(x.name)
        return '%s:%s:%d' % (self.rel, '.'.join(reversed(f)) or '<module>', getattr(node, 'lineno', 0))

    def scope_binds(self, node, name):
        """Is the name rebound in a function around the node?"""
        x = node
        while x in self.parent:
            x = self.parent[x]
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                a = x.args
                if name in {y.arg for y in a.args + a.posonlyargs + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z]}:
                    return True
                if isinstance(x, ast.FunctionDef):
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store):
                            return True
                        if isinstance(y, (ast.Import, ast.ImportFrom)) and any((z.asname or z.name.split('.')[0]) == name for z in y.names):
                            return True
                        if isinstance(y, (ast.FunctionDef, ast.ClassDef)) and y is not x and y.name == name:
                            return True
        return False


def undefined_names(ck, mods):
    cnt = 0
    known = set(dir(builtins)) | SPECIAL
    for md in mods.values():
        if md.star or md.dyn:
            continue
        missing = set()

        def visit(t):
            nonlocal cnt
            for s in t.get_symbols():
                if s.is_referenced() and (s.is_global() or t.get_type() == 'module'):
                    cnt += 1
                    if s.get_name() not in md.names and s.get_name() not in known:
                        missing.add(s.get_name())
            for c in t.get_children():
                visit(c)
        visit(md.sym)
        if not missing:
            continue
        for x in ast.walk(md.tree):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in missing and not md.scope_binds(x, x.id) \
                    and not md.guarded(x, ('NameError', 'Exception', 'BaseException')) and not annotation(md, x) and not comp_local(md, x):
                ck.violation('names of ' + md.rel, "the name '%s' is used at %s but defined nowhere" % (x.id, md.where(x)))
    return cnt


def comp_local(md, node):
    """Bound by a comprehension or an except clause around it."""
    x = node
    while x in md.parent:
        x = md.parent[x]
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in x.generators:
                if any(isinstance(y, ast.Name) and y.id == node.id for y in ast.walk(g.target)):
                    return True
    return False


def annotation(md, node):
    x = node
    while x in md.parent:
        p = md.parent[x]
        if isinstance(p, ast.arg) or (isinstance(p, ast.AnnAssign) and x is p.annotation) or (isinstance(p, ast.FunctionDef) and x is p.returns):
            return True
        x = p
    return False


def aliases(md, mods, node):
    """Local names that stand for modules of the package."""
    out = {}
    for x in ast.walk(node):
        if isinstance(x, ast.ImportFrom):
            base = x.module or ''
            if x.level:
                pk = md.name.split('.') if md.rel.endswith('__init__.py') else md.name.split('.')[:-1]
                pk = pk[:len(pk) - x.level + 1]
                base = '.'.join(pk + ([x.module] if x.module else []))
            for a in x.names:
                full = base + '.' + a.name
                if full in mods:
                    out[a.asname or a.name] = ('mod', full)
                elif base in mods:
                    out[a.asname or a.name] = ('obj', base, a.name, x)
        elif isinstance(x, ast.Import):
            for a in x.names:
                if a.asname and a.name in mods:
                    out[a.asname] = ('mod', a.name)
    return out


def module_attrs(ck, mods, ip):
    cnt = 0
    for md in mods.values():
        al = aliases(md, mods, md.tree)
        for nm, t in al.items():
            if t[0] == 'obj':
                cnt += 1
                ms = ip.mods.get(t[1])
                if ms is None or t[2] == '*' or '__getattr__' in ms.s:
                    continue
                if t[2] not in ms.s and t[1] + '.' + t[2] not in mods and not md.guarded(t[3], ('ImportError', 'Exception', 'BaseException', 'ModuleNotFoundError')):
                    ck.violation('imports of ' + md.rel, '%s imports %s from %s, which does not define it' % (md.where(t[3]), t[2], t[1]))
        for x in ast.walk(md.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and isinstance(x.ctx, ast.Load):
                t = al.get(x.value.id)
                if t is None or t[0] != 'mod' or rebound(md, x, x.value.id):
                    continue
                cnt += 1
                ms = ip.mods.get(t[1])
                if ms is None or '__getattr__' in ms.s or mods[t[1]].star or mods[t[1]].dyn:
                    continue
                if x.attr not in ms.s and x.attr not in mods[t[1]].names and t[1] + '.' + x.attr not in mods and x.attr not in SPECIAL \
                        and not md.guarded(x, ('AttributeError', 'Exception', 'BaseException')):
                    ck.violation('attributes used by ' + md.rel, '%s reads %s.%s, which does not exist' % (md.where(x), t[1], x.attr))
    return cnt


def rebound(md, node, name):
    x = node
    while x in md.parent:
        x = md.parent[x]
        if isinstance(x, ast.FunctionDef):
            a = x.args
            if name in {y.arg for y in a.args + a.posonlyargs + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z]}:
                return True
            if any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store) for y in ast.walk(x)):
                return True
    return False


# ---------------------------------------------------------------- classes
class Cls:
    def __init__(self, md, node):
        self.md, self.node, self.name = md, node, node.name
        self.attrs = set()
        self.meths = {}
        self.dyn = False
        for x in node.body:
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                self.attrs.add(x.name)
                if isinstance(x, ast.FunctionDef):
                    self.meths[x.name] = x
            else:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        self.attrs.add(y.id)
        for f in ast.walk(node):
            if not isinstance(f, ast.FunctionDef):
                continue
            me = f.args.args[0].arg if f.args.args else None
            for y in ast.walk(f):
                if isinstance(y, ast.Attribute) and isinstance(y.ctx, (ast.Store, ast.Del)) and isinstance(y.value, ast.Name) and y.value.id == me:
                    self.attrs.add(y.attr)
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ('setattr', 'hasattr', 'getattr', 'vars', 'delattr'):
                    for z in ast.walk(f):
                        if isinstance(z, ast.Constant) and isinstance(z.value, str):
                            self.attrs.add(z.value)
                    if y.func.id == 'setattr' and not any(isinstance(z, ast.Constant) and isinstance(z.value, str) for z in ast.walk(f)):
                        self.dyn = True
                if isinstance(y, ast.Attribute) and y.attr == '__dict__':
                    self.dyn = True
        if {'__getattr__', '__getattribute__'} & set(self.meths):
            self.dyn = True


def family(ip, mods):
    """(class, all repository classes above it, those below it, all bases known)."""
    table = {}
    for md in mods.values():
        for nm, nd in md.defs.items():
            if isinstance(nd, ast.ClassDef):
                v = ip.mods[md.name].s.get(nm) if md.name in ip.mods else None
                if isinstance(v, ClassV):
                    table[v] = Cls(md, nd)
    out = []
    for v, c in table.items():
        up = [table[b] for b in v.mro if b in table]
        ext = [b for b in v.mro if b not in table and b.name.split('.')[-1] not in ('object', 'ABC')]
        down = [table[w] for w in table if v in w.mro]
        out.append((v, c, up, down, ext))
    return out


OBJ_ATTRS = set(dir(object)) | {'__dict__', '__weakref__', '__module__', '__abstractmethods__'}
EXC_ATTRS = set(dir(Exception))


def self_attrs(ck, mods, ip, fam):
    cnt = 0
    for v, c, up, down, ext in fam:
        if any(x.dyn for x in up + down):
            continue
        allowed = set(OBJ_ATTRS)
        for x in up + down:
            allowed |= x.attrs
        for y in [z for w, cc, *_ in fam for z in w.mro if any(x is cc for x in down)]:
            if y.name.split('.')[-1] not in ('object', 'ABC') and not isinstance(y, ClassV):
                ext = ext + [y]
        if any(e.name not in M.TYPES for e in ext):
            # external (scikit-learn) bases: their public attributes are unknown, private ones of this code are not
            pub = lambda a: not a.startswith('_') or a.startswith('__') or a.startswith('_sklearn') or a in ('_validate_data', '_check_n_features', '_get_tags', '_more_tags')
        else:
            pub = lambda a: False
            if ext:
                allowed |= EXC_ATTRS
        for f in c.meths.values():
            decs = {x.id for x in f.decorator_list if isinstance(x, ast.Name)}
            if 'staticmethod' in decs or not f.args.args:
                continue
            me = f.args.args[0].arg
            for y in ast.walk(f):
                if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Load) and isinstance(y.value, ast.Name) and y.value.id == me:
                    cnt += 1
                    if y.attr not in allowed and not pub(y.attr) and not c.md.guarded(y, ('AttributeError', 'Exception', 'BaseException')):
                        ck.violation('attributes of ' + c.name, '%s reads self.%s, which no method of the class or its relatives defines' % (c.md.where(y), y.attr))
    return cnt


def arity(f, call_, skip):
    """None when the call fits the parameters of the function, else why not."""
    a = f.args
    if any(isinstance(x, ast.Starred) for x in call_.args) or any(k.arg is None for k in call_.keywords):
        return None
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    if len(call_.args) > len(pos) and not a.vararg:
        return 'takes %d positional arguments but %d are given' % (len(pos), len(call_.args))
    given = set(pos[:len(call_.args)])
    names = set(pos) | {x.arg for x in a.kwonlyargs}
    for k in call_.keywords:
        if k.arg in given:
            return "gets multiple values for '%s'" % k.arg
        if k.arg not in names and not a.kwarg:
            return "has no parameter '%s'" % k.arg
        given.add(k.arg)
    need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    for p in need:
        if p not in given:
            return "misses the argument '%s'" % p
    for p, dflt in zip(a.kwonlyargs, a.kw_defaults):
        if dflt is None and p.arg not in given:
            return "misses the argument '%s'" % p.arg
    return None


def decorated(f):
    return [x for x in f.decorator_list]


def arities(ck, mods, ip, fam):
    cnt = 0
    cl = {c.node: (v, c, up) for v, c, up, _, ext in fam}
    byname = {}
    for v, c, up, _, ext in fam:
        byname[(c.md.name, c.name)] = (v, c, up, ext)

    def check(md, x, f, skip, what):
        nonlocal cnt
        if isinstance(f, ast.FunctionDef) and not decorated(f):
            cnt += 1
            why = arity(f, x, skip)
            if why and not md.guarded(x, ('TypeError', 'Exception', 'BaseException')):
                ck.violation('calls in ' + md.rel, '%s: %s %s' % (md.where(x), what, why))

    def resolve(md, name, al):
        if name in md.defs:
            return md, md.defs[name]
        t = al.get(name)
        seen = 0
        while t and t[0] == 'obj' and seen < 4:
            m2 = mods.get(t[1])
            if m2 is None:
                return None
            if t[2] in m2.defs:
                return m2, m2.defs[t[2]]
            t = aliases(m2, mods, m2.tree).get(t[2])
            seen += 1
        return None
    for md in mods.values():
        al = aliases(md, mods, md.tree)
        for x in ast.walk(md.tree):
            if not isinstance(x, ast.Call):
                continue
            g = x.func
            if isinstance(g, ast.Name) and not rebound(md, x, g.id):
                r = resolve(md, g.id, al)
                if r is None or (g.id in md.names and g.id in md.defs and sum(1 for y in md.tree.body if isinstance(y, (ast.FunctionDef, ast.ClassDef)) and y.name == g.id) != 1):
                    continue
                m2, f = r
                if isinstance(f, ast.ClassDef):
                    e = byname.get((m2.name, f.name))
                    if e is None or e[3]:
                        continue
                    init = next((c.meths['__init__'] for c in e[2] if '__init__' in c.meths), None)
                    if init is not None and not f.decorator_list:
                        check(md, x, init, 1, f.name + '()')
                else:
                    check(md, x, f, 0, g.id + '()')
            elif isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name):
                t = al.get(g.value.id)
                if t and t[0] == 'mod' and not rebound(md, x, g.value.id):
                    f = mods[t[1]].defs.get(g.attr)
                    if isinstance(f, ast.FunctionDef):
                        check(md, x, f, 0, g.attr + '()')
        for v, c, up, down, ext in fam:
            if c.md is not md:
                continue
            for f in c.meths.values():
                decs = {y.id for y in f.decorator_list if isinstance(y, ast.Name)}
                if 'staticmethod' in decs or 'classmethod' in decs or not f.args.args:
                    continue
                me = f.args.args[0].arg
                for x in ast.walk(f):
                    if not isinstance(x, ast.Call) or not isinstance(x.func, ast.Attribute):
                        continue
                    nm = x.func.attr
                    if isinstance(x.func.value, ast.Name) and x.func.value.id == me:
                        t = next((u.meths[nm] for u in up if nm in u.meths), None)
                        if t is not None and not any(nm in dn.meths and dn.meths[nm] is not t for dn in down):
                            check(md, x, t, 1, 'self.%s()' % nm)
                    elif isinstance(x.func.value, ast.Call) and isinstance(x.func.value.func, ast.Name) and x.func.value.func.id == 'super' \
                            and not x.func.value.args and not ext:
                        t = next((u.meths[nm] for u in up[1:] if nm in u.meths), None)
                        if t is not None:
                            check(md, x, t, 1, 'super().%s()' % nm)
    return cnt


def formats(ck, mods):
    cnt = 0
    for md in mods.values():
        for x in ast.walk(md.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format' \
                    and isinstance(x.func.value, ast.Constant) and isinstance(x.func.value.value, str):
                if any(isinstance(y, ast.Starred) for y in x.args) or any(k.arg is None for k in x.keywords):
                    continue
                cnt += 1
                auto, why = 0, None
                try:
                    fields = []

                    def parse(s):
                        for _, nm, spec, _c in string.Formatter().parse(s):
                            if nm is not None:
                                fields.append(nm)
                                if spec:
                                    parse(spec)
                    parse(x.func.value.value)
                except ValueError as e:
                    fields, why = [], str(e)
                kws = {k.arg for k in x.keywords}
                for f in fields:
                    h = f.replace('[', '.').split('.')[0]
                    if h == '':
                        h = str(auto)
                        auto += 1
                    if h.isdigit():
                        if int(h) >= len(x.args):
                            why = 'placeholder %s has no argument' % h
                    elif h not in kws:
                        why = "placeholder '%s' has no argument" % h
                if why and not md.guarded(x, ('Exception', 'BaseException')):
                    ck.violation('messages of ' + md.rel, '%s: %s' % (md.where(x), why))
    return cnt


INTERNAL = ('NameError', 'UnboundLocalError', 'AttributeError')


def is_str(o):
    if o.kind != 'ok':
        return False
    if isinstance(o.val, Unk):
        return None
    return isinstance(o.val, (str, StrV))


STR_ = Pred(is_str, 'a string')
NOINT = Pred(lambda o: not (o.kind == 'raise' and any(c.name.split('.')[-1] in INTERNAL for c in o.val.cls.mro)),
             'no NameError, UnboundLocalError or AttributeError')


@rule('C24')
def c24(ck):
    env, ip = ck.env, ck.ip
    mods = {}
    for name, rel, src in sources(env.root):
        try:
            mods[name] = Mod(name, rel, src)
        except SyntaxError as e:
            raise AnchorLost('%s does not parse: %s' % (rel, e))
    fam = family(ip, mods)
    for lab, f in (('every name that is read is defined', lambda: undefined_names(ck, mods)),
                   ('every attribute read from a module of the package exists', lambda: module_attrs(ck, mods, ip)),
                   ('every attribute read from self is defined by the class or a relative', lambda: self_attrs(ck, mods, ip, fam)),
                   ('every resolved call fits the parameters of its target', lambda: arities(ck, mods, ip, fam)),
                   ('every message placeholder has an argument', lambda: formats(ck, mods))):
        before = len(ck.viol)
        c = f()
        bad = len(ck.viol) - before
        ck.obl.append((lab, c, c - bad, 0, 0))
    ck.fork([lambda: printing(ck), lambda: unattached(ck), lambda: error_paths(ck)])


def userfn(ip):
    f = Opq(('userfn', 2))
    ip.facts.add(('p', 'callable', ('opq', ('userfn', 2))), True)
    return f


def printing(ck):
    env, ip = ck.env, ck.ip
    X = lambda: env.arr('X', (n, d))
    sc = lambda s: Sc(sym(s), 'float')
    kernels = [('numeric_kernels.' + k, kw) for k, kw in (('PolyKernel', {}), ('PolyKernel', {'degree': 2, 'gamma': sc('g'), 'b': sc('b')}), ('GaussianKernel', {}),
               ('GaussianKernel', {'sigma': sc('s')}), ('LaplacianKernel', {}), ('LaplacianKernel', {'gamma': sc('g')}), ('LinearKernel', {}),
               ('Chi2Kernel', {}), ('Chi2Kernel', {'gamma': sc('g')}), ('SigmoidKernel', {}), ('SigmoidKernel', {'gamma': sc('g'), 'offset': sc('o')}),
               ('HadamardKernel', {}), ('HadamardKernel', {'alpha': 2}))]
    kernels += [('categorical.MatchCountKernel', {}), ('categorical.MatchCountKernel', {'return_perc': False})]
    objs = []
    for p, kw in kernels:
        for sk in (False, True):
            if sk and p.startswith('categorical'):
                continue
            k2 = dict(kw, skip_input_checks=True) if sk else kw
            objs.append(('%s(%s)' % (p.split('.')[1], ', '.join(sorted(k2))), lambda p=p, k2=k2: new(env, p, **k2)))
    objs.append(('user-defined kernel', lambda: env.kernel('k')))

    def km(two=None, norm=True, kern_=None, use=None, **kw):
        k = new(env, 'base.KernelMatrix', kern_() if kern_ else env.kernel('k'), normalized=norm, **kw)
        if two is not None:
            env.pos()
            a = {'sample_two': env.arr('Y', (m, d))} if two else {}
            if kw.get('name'):
                a['name_one'] = 'train'
                if two:
                    a['name_two'] = 'test'
            meth(ip, k, 'attach_to', X(), **a)
            if use:
                op_table(ck)[use](k)
        return k
    for norm in (False, True):
        objs.append(('KernelMatrix(normalized=%s), not attached' % norm, lambda norm=norm: km(None, norm)))
        for two in (False, True):
            for named in (False, True):
                objs.append(('KernelMatrix(normalized=%s) on %s sample(s)%s' % (norm, 1 + two, ', named' if named else ''),
                             lambda norm=norm, two=two, named=named: km(two, norm, **({'name': 'nm'} if named else {}))))
        objs.append(('KernelMatrix(normalized=%s) of a linear kernel' % norm, lambda norm=norm: km(False, norm, lambda: new(env, 'numeric_kernels.LinearKernel'))))
    for u in ('full', 'full_sparse', 'diagonal()', '[1,0]', 'set_attr'):
        def used(u=u):
            return km(False, False, use=u) if u != '[1,0]' else km2(ck)
        objs.append(('KernelMatrix after ' + u, used))

    def rejected():
        k = km(None)
        try:
            meth(ip, k, 'attach_to', env.arr('U', (P(2), P(2))), sample_two=env.arr('V', (P(2), P(3))))
        except PyRaise:
            pass
        return k
    objs.append(('KernelMatrix after a rejected attach', rejected))
    gram = lambda: Arr((n, n), el('g', I(0)) * el('g', I(1)), F8, owner='A')
    objs.append(('KernelMatrixPrecomputed', lambda: (env.pos(), new(env, 'base.KernelMatrixPrecomputed', gram()))[1]))
    objs.append(('KernelMatrixPrecomputed(name)', lambda: (env.pos(), new(env, 'base.KernelMatrixPrecomputed', gram(), name='abc'))[1]))
    objs.append(('KernelMatrixPrecomputed(name=5)', lambda: (env.pos(), new(env, 'base.KernelMatrixPrecomputed', gram(), name=5))[1]))
    for kw in ({}, {'value': sc('v')}, {'name': None}, {'name': 'abc'}, {'dtype': 'int64', 'value': 3}):
        objs.append(('ConstantKernelMatrix(%s)' % ', '.join(kw), lambda kw=kw: (env.pos(), new(env, 'base.ConstantKernelMatrix', isc(n), **kw))[1]))
    objs.append(('KernelSet()', lambda: new(env, 'base.KernelSet')))
    objs.append(('KernelSet(num_samples)', lambda: new(env, 'base.KernelSet', num_samples=isc(n))))
    objs.append(('KernelSet(name)', lambda: new(env, 'base.KernelSet', name='ks')))
    for p in (1, 2, 3):
        for att in (False, True):
            objs.append(('KernelSet of %d, %s' % (p, 'attached' if att else 'not attached'), lambda p=p, att=att: kset(ck, p, attach=att)))
    objs.append(('KernelSet of a precomputed matrix', lambda: (env.pos(), new(env, 'base.KernelSet', PList([gram()])))[1]))
    for st in ('linear_only', 'light', 'exhaustive'):
        def bucket(st=st, att=False):
            b = new(env, 'sampling.make_kernel_bucket', st)
            if att:
                env.pos()
                meth(ip, b, 'attach_to', X())
            return b
        objs.append(('bucket ' + st, bucket))
        objs.append(('bucket %s, attached' % st, lambda st=st: bucket(st, True)))
    for cname in ('SumKernel', 'ProductKernel', 'AverageKernel', 'WeightedAverageKernel'):
        for fit in (False, True):
            def comp(cname=cname, fit=fit):
                ks = kset(ck, 2)
                a = [ks]
                if cname == 'WeightedAverageKernel':
                    a.append(PList([Sc(sym('w0'), 'float'), Sc(sym('w1'), 'float')]))
                c = new(env, 'base.' + cname, *a)
                if fit:
                    meth(ip, c, 'fit')
                return c
            objs.append(('%s, %s' % (cname, 'fitted' if fit else 'not fitted'), comp))
    ops = [('str()', 'str(k)'), ('repr()', 'repr(k)'), ('format()', 'format(k)'), ("'{}'.format()", "'{}'.format(k)"), ('f-string', "f'{k}'"),
           ("'%s'", "'%s' % (k,)"), ("format(k, '>20')", "format(k, '>20')")]
    with finite(ip):
        for lab, mk in objs:
            res = [(o, lambda k, src=src: env.ev(src, k=k), STR_ if o != "format(k, '>20')" else NOINT) for o, src in ops]
            ck.multi(lab, mk, res)

        def user():
            return new(env, 'base.KernelFromCallable', env.ev('lambda x, y: x'))
        for lab, src in (('KernelFromCallable(lambda)', 'F(lambda x, y: x)'), ('KernelFromCallable(lambda, name)', "F(lambda x, y: x, name='nm')"),
                         ('KernelFromCallable(lambda, parameter)', 'F(lambda x, y, p=1: x, p=2)'), ('KernelFromCallable(lambda, name, parameter)', "F(lambda x, y, p=1: x, name='nm', p=2)")):
            ck.multi(lab, lambda: env.ev(src, F=env.get('base.KernelFromCallable')),
                     [(o, lambda k, s2=s2: env.ev(s2, k=k), STR_) for o, s2 in ops[:6]])


def km2(ck):
    from .rules_km import att_c
    k = att_c(ck, False, False)
    op_table(ck)['[1,0]'](k)
    return k


def unattached(ck):
    """Access without data raises the documented error."""
    env, ip = ck.env, ck.ip
    W = Raises('ValueError', 'KernelMethodsException', 'NotFittedError')
    T = op_table(ck)
    with finite(ip):
        for norm in (False, True):
            mk = lambda: new(env, 'base.KernelMatrix', env.kernel('k'), normalized=norm)
            res = []
            for r in ('full', 'normed_km', 'centered', 'frob_norm', 'full_sparse', 'size', 'len', 'diagonal()', 'center()', 'normalize()', '[:,:]', '[0,1]', '[[0,1],:]', '[9,9]'):
                res.append((r, lambda k, r=r: T[r](k), W))
            res.append(('[3]', lambda k: M.getitem(ip, k, 3), W))
            res.append(("['a']", lambda k: M.getitem(ip, k, 'a'), W))
            for r in ('shape', 'num_samples', 'get_attr', 'attributes()', 'set_attr'):
                res.append((r, lambda k, r=r: T[r](k), [(True, NOINT)]))
            ck.multi('KernelMatrix(normalized=%s), not attached' % norm, mk, res)

            def after_rejected():
                k = mk()
                try:
                    meth(ip, k, 'attach_to', env.arr('U', (P(2), P(2))), sample_two=env.arr('V', (P(2), P(3))))
                except PyRaise:
                    pass
                return k
            ck.multi('KernelMatrix(normalized=%s) after a rejected attach' % norm, after_rejected, res)
        for cname in ('SumKernel', 'ProductKernel', 'AverageKernel', 'WeightedAverageKernel'):
            extra = [PList([Sc(sym('w0'), 'float'), Sc(sym('w1'), 'float')])] if cname == 'WeightedAverageKernel' else []
            ck.multi('%s, not fitted' % cname, lambda: new(env, 'base.' + cname, kset(ck, 2), *extra),
                     [(r, lambda k, r=r: attr(ip, k, r), W) for r in ('composite_KM', 'full')])
            ck.case('%s of a set that is not attached' % cname, lambda: new(env, 'base.' + cname, kset(ck, 2, attach=False), *extra), W)
            ck.case('%s of one kernel' % cname, lambda: new(env, 'base.' + cname, kset(ck, 1), *extra[:1]), W)
            for bad, bn in ((3, 'a number'), (None, 'None'), ('abc', 'a string'), (PList([]), 'a list')):
                ck.case('%s of %s' % (cname, bn), lambda: new(env, 'base.' + cname, bad, *extra), Raises('TypeError', 'ValueError', 'KernelMethodsException'))


def error_paths(ck):
    """Error paths of the other public operations end in the intended error."""
    env, ip = ck.env, ck.ip
    X = lambda: env.arr('X', (n, d))
    lst = lambda *a: PList(list(a))
    B, S_, O, U, R, A_ = 'base.', 'sampling.', 'operations.', 'utils.', 'ranking.', 'algorithms.'
    C = []

    def c(lab, f, *names):
        C.append((lab, f, Raises(*names) if names else NOINT))
    for bad in (3, 'abc', None):
        c('KernelMatrix(%r)' % (bad,), lambda bad=bad: new(env, B + 'KernelMatrix', bad), 'TypeError')
        c('KernelMatrix(kernel, normalized=%r)' % (bad,), lambda bad=bad: new(env, B + 'KernelMatrix', env.kernel('k'), normalized=bad), 'TypeError')
    c('KernelSet(3)', lambda: new(env, B + 'KernelSet', 3), 'TypeError')
    c("KernelSet('abc')", lambda: new(env, B + 'KernelSet', 'abc'), 'TypeError')
    c('KernelSet.append(wrong size)', lambda: meth(ip, new(env, B + 'KernelSet', num_samples=5), 'append', Arr((P(2), P(2)), ONE, F8)), 'KMSetAdditionError')
    c('KernelSet.extend(list)', lambda: meth(ip, kset(ck, 2), 'extend', lst()), 'KMSetAdditionError')
    c('KernelSet.extend(wrong size)', lambda: meth(ip, new(env, B + 'KernelSet', num_samples=5), 'extend', new(env, B + 'KernelSet', num_samples=4)), 'KMSetAdditionError')
    for ix in (5, -1, 2):
        c('KernelSet[%d]' % ix, lambda ix=ix: M.getitem(ip, kset(ck, 2), ix), 'IndexError')
        c('KernelSet.take(%d)' % ix, lambda ix=ix: meth(ip, kset(ck, 2), 'take', ix), 'IndexError')
        c('KernelSet.get_kernel_funcs([%d])' % ix, lambda ix=ix: meth(ip, kset(ck, 2), 'get_kernel_funcs', lst(ix)), 'IndexError')
    c("KernelSet['a']", lambda: M.getitem(ip, kset(ck, 2), 'a'), 'ValueError')
    c('KernelSet.attach_to(wrong size)', lambda: meth(ip, kset(ck, 2), 'attach_to', env.arr('Z', (n + 1, d))), 'ValueError')
    c('KernelSet.set_attr(wrong number)', lambda: meth(ip, kset(ck, 2), 'set_attr', 'a', lst(1, 2, 3)), 'ValueError')
    for op_ in ('__add__', '__mul__', '__sub__'):
        c('KernelMatrix.' + op_, lambda op_=op_: meth(ip, attached(ck, False), op_, 3), 'NotImplementedError')
    c('KernelBucket(normalize_kernels=3)', lambda: new(env, S_ + 'KernelBucket', normalize_kernels=3), 'TypeError')
    c('KernelBucket(skip_input_checks=3)', lambda: new(env, S_ + 'KernelBucket', skip_input_checks=3), 'TypeError')
    c("make_kernel_bucket('other')", lambda: new(env, S_ + 'make_kernel_bucket', 'other'), 'ValueError')
    lin = lambda: new(env, S_ + 'make_kernel_bucket', 'linear_only')
    c('add_parametrized_kernels(not a kernel)', lambda: meth(ip, lin(), 'add_parametrized_kernels', 3, 'degree', lst(1)), 'KernelMethodsException')
    c('add_parametrized_kernels(number)', lambda: meth(ip, lin(), 'add_parametrized_kernels', env.get('numeric_kernels.PolyKernel'), 'degree', 3), 'ValueError')
    c('add_parametrized_kernels(unknown parameter)', lambda: meth(ip, lin(), 'add_parametrized_kernels', env.get('numeric_kernels.PolyKernel'), 'other', lst(3)))
    c('rank_kernels(unknown method)', lambda: new(env, R + 'rank_kernels', kset(ck, 2), env.arr('y', (n,)), method='other'), 'NotImplementedError')
    c('find_optimal_kernel(not a bucket)', lambda: new(env, R + 'find_optimal_kernel', 3, X(), env.arr('y', (n,))), 'TypeError')
    c('get_estimator(unknown)', lambda: new(env, R + 'get_estimator', 'other'), 'NotImplementedError')
    c('frobenius_product(shapes differ)', lambda: new(env, O + 'frobenius_product', env.arr('A', (P(2), P(2))), env.arr('B', (P(2), P(3)))), 'ValueError')
    c('is_PSD(list)', lambda: new(env, O + 'is_positive_semidefinite', lst(1)), 'TypeError')
    c('normalize_km(method)', lambda: (env.pos(), new(env, O + 'normalize_km', env.arr('A', (n, n)), method='other'))[1], 'NotImplementedError', 'KMNormError')
    c('normalize_km_2sample(method)', lambda: (env.pos(), new(env, O + 'normalize_km_2sample', env.arr('A', (n, m)), env.arr('p', (n,)), env.arr('q', (m,)), method='other'))[1], 'NotImplementedError', 'KMNormError')
    c('normalize_km_2sample(shapes)', lambda: new(env, O + 'normalize_km_2sample', env.arr('A', (P(2), P(3))), env.arr('p', (P(2),)), env.arr('q', (P(2),))), 'ValueError')
    c('center_km(not square)', lambda: new(env, O + 'center_km', env.arr('A', (P(2), P(3)))), 'ValueError')
    c('alignment_centered(shapes)', lambda: new(env, O + 'alignment_centered', env.arr('A', (P(2), P(2))), env.arr('B', (P(3), P(3)))), 'ValueError')
    c('alignment_centered(list)', lambda: new(env, O + 'alignment_centered', lst(lst(1)), env.arr('B', (P(3), P(3)))), 'TypeError')
    c('linear_combination(weights)', lambda: new(env, O + 'linear_combination', kset(ck, 2), lst(1, 2, 3)), 'ValueError')
    c('WeightedAverageKernel(weights)', lambda: new(env, B + 'WeightedAverageKernel', kset(ck, 2), lst(1, 2, 3)), 'ValueError')
    c('check_callable(3)', lambda: new(env, U + 'check_callable', 3), 'TypeError')
    c('check_callable(one parameter)', lambda: new(env, U + 'check_callable', env.ev('lambda x: x'), min_num_args=2), 'TypeError')
    c('check_operation_kernel_matrix(other)', lambda: new(env, U + 'check_operation_kernel_matrix', 'other'), 'ValueError')
    c('ensure_ndarray_2D(vector)', lambda: (env.pos(), new(env, U + 'ensure_ndarray_2D', env.arr('x', (n + 1,))))[1], 'ValueError')
    c('ensure_ndarray_1D(matrix)', lambda: (env.pos(), new(env, U + 'ensure_ndarray_1D', env.arr('x', (n + 1, m + 1))))[1], 'ValueError')
    c('ensure_ndarray_1D(None)', lambda: new(env, U + 'ensure_ndarray_1D', None))
    c('pairwise_similarity(unknown metric)', lambda: new(env, S_ + 'pairwise_similarity', kset(ck, 2), metric='other'), 'Exception')
    c('MatchCountKernel()(numbers)', lambda: call(ip, new(env, 'categorical.MatchCountKernel'), lst(1, 2), lst(1, 2)), 'TypeError')
    c('HadamardKernel(alpha=0)', lambda: new(env, 'numeric_kernels.HadamardKernel', alpha=0), 'ValueError')
    c('Chi2Kernel()(negative)', lambda: call(ip, new(env, 'numeric_kernels.Chi2Kernel'), lst(-1, 2), lst(1, 2)), 'Chi2NegativeValuesException')
    for k in ('PolyKernel', 'GaussianKernel', 'LaplacianKernel', 'LinearKernel', 'SigmoidKernel', 'HadamardKernel', 'Chi2Kernel'):
        c(k + '()(lengths differ)', lambda k=k: call(ip, new(env, 'numeric_kernels.' + k), lst(1, 2), lst(1, 2, 3)), 'ValueError')
        c(k + '()(strings)', lambda k=k: call(ip, new(env, 'numeric_kernels.' + k), lst('a'), lst('b')), 'ValueError')
    for e in ('KernelMachine', 'KernelMachineRegressor', 'OptimalKernelSVC', 'OptimalKernelSVR'):
        c(e + '().predict before fit', lambda e=e: meth(ip, new(env, A_ + e), 'predict', X()), 'NotFittedError')
    for e in ('OptimalKernelSVC', 'OptimalKernelSVR'):
        c(e + '(k_bucket=3).fit', lambda e=e: (env.pos(), meth(ip, new(env, A_ + e, k_bucket=3), 'fit', X(), env.arr('y', (n,))))[1], 'ValueError')
    with finite(ip):
        for lab, f, w in C:
            ck.case(lab, f, w)
        # index errors of kernel matrices, whatever the message says
        for lab, ix in (('[9, 9]', (9, 9)), ("['a', 0]", ('a', 0)), ('[None, 0]', (None, 0)), ('[0, -1]', (0, -1)), ('[[], 0]', (lst(), 0)), ('[0, 0, 0]', (0, 0, 0)), ('[99]', 99), ('[-1]', -1)):
            from .rules_km import att_c
            ck.case('KernelMatrix' + lab, lambda: M.getitem(ip, att_c(ck, False, False), ix), Raises('KMAccessError'))
            ck.case('KernelMatrix(two samples)' + lab, lambda: M.getitem(ip, att_c(ck, False, True), ix), Raises('KMAccessError'))
            ck.case('ConstantKernelMatrix' + lab, lambda: M.getitem(ip, new(env, B + 'ConstantKernelMatrix', 3), ix), Raises('KMAccessError'))
        k2 = lambda: attached(ck, False, True)
        for lab, f in (('centered', lambda: attr(ip, k2(), 'centered')), ('center()', lambda: meth(ip, k2(), 'center')), ('diagonal()', lambda: meth(ip, k2(), 'diagonal'))):
            ck.case('KernelMatrix on two samples: ' + lab, f, Raises('KMAccessError', 'NotImplementedError', 'ValueError'))
