"""Mechanical translation of the modules of /repo and their loading.

The translation keeps every statement of the source; see DESIGN.md for the
list of what it drops (type annotations, printing, file/plot output) and of
what it routes through the verifier (numbers, loops, containers, attribute
assignment).
"""
import ast, os, sys, builtins, types, itertools, warnings
from fractions import Fraction
from .core import Unsupported, Num

REPO = os.environ.get('GHEDT_REPO', '/repo')

ARITH = {ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod_', ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Pow: 'pow_'}
OTHER = {ast.BitAnd: '&', ast.BitOr: '|'}


def N(id, c=None):
    return ast.Name(id=id, ctx=c or ast.Load())


def A(v, attr, c=None):
    return ast.Attribute(value=v, attr=attr, ctx=c or ast.Load())


def call(name, *args):
    return ast.Call(func=A(N('_vc'), name), args=list(args), keywords=[])


def const(v):
    return ast.Constant(value=v)


def stored_names(body):
    """Names bound in a function body (not in nested scopes)."""
    out, glob, nonl = set(), set(), set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d)

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def comp(self, n):
            self.visit(n.generators[0].iter)
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_Global(self, n):
            glob.update(n.names)

        def visit_Nonlocal(self, n):
            nonl.update(n.names)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    v = V()
    for s in body:
        v.visit(s)
    return out - glob - nonl, glob, nonl


class Xf:
    def __init__(self, modname):
        self.ids = itertools.count(1)
        self.scopes = []         # function frames: (framevar, set of locals) or ('plain', names)
        self.modname = modname
        self.loop = []           # nesting marker per function: list of counts

    # ---------------------------------------------------------------- names
    def resolve(self, name):
        for kind, var, names in reversed(self.scopes):
            if name in names:
                return (kind, var)
            if kind == 'global' and name in var:
                return None
        return None

    def load(self, name):
        r = self.resolve(name)
        if r is None or r[0] == 'plain':
            return N(name)
        return A(N(r[1]), name)

    def store(self, name, value):
        """statement binding a name"""
        r = self.resolve(name)
        if r is None or r[0] == 'plain':
            return ast.Assign(targets=[N(name, ast.Store())], value=value)
        return ast.Expr(call('fset', N(r[1]), const(name), value))

    def tmp(self):
        return '_t%d_' % next(self.ids)

    # ---------------------------------------------------------------- expressions
    def e(self, n):
        if n is None:
            return None
        return getattr(self, 'e_' + type(n).__name__, self.e_generic)(n)

    def e_generic(self, n):
        raise SyntaxError('%s: expression %s at line %d' % (self.modname, type(n).__name__, n.lineno))

    def e_Name(self, n):
        return self.load(n.id)

    def e_Constant(self, n):
        if isinstance(n.value, float):
            return call('F', const(repr(n.value)))
        return n

    def e_Attribute(self, n):
        return A(self.e(n.value), n.attr)

    def e_Subscript(self, n):
        return call('getitem', self.e(n.value), self.index(n.slice))

    def index(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(func=A(N('_vc'), 'slice'), args=[self.e(x) if x else const(None) for x in (s.lower, s.upper, s.step)], keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self.index(x) for x in s.elts], ctx=ast.Load())
        return self.e(s)

    def e_Slice(self, n):
        return self.index(n)

    def e_Call(self, n):
        f = self.e(n.func)
        args = [ast.Starred(value=call('unstar', self.e(a.value)), ctx=ast.Load()) if isinstance(a, ast.Starred) else self.e(a) for a in n.args]
        kw = [ast.keyword(arg=k.arg, value=self.e(k.value)) for k in n.keywords]
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not args:
            return n
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('format', 'ljust', 'rjust', 'join', 'split'):
            return ast.Call(func=A(N('_vc'), 'strcall'), args=[self.e(n.func.value), const(n.func.attr)] + args, keywords=kw)
        return ast.Call(func=f, args=args, keywords=kw)

    def e_BinOp(self, n):
        l, r = self.e(n.left), self.e(n.right)
        op = ARITH.get(type(n.op))
        if op:
            return call(op, l, r)
        return ast.BinOp(left=l, op=n.op, right=r)

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return call('not_', self.e(n.operand))
        return ast.UnaryOp(op=n.op, operand=self.e(n.operand))

    def e_BoolOp(self, n):
        f = 'and_' if isinstance(n.op, ast.And) else 'or_'
        vals = [self.e(v) for v in n.values]
        r = vals[-1]
        for v in reversed(vals[:-1]):
            r = call(f, v, lam(r))
        return r

    def e_Compare(self, n):
        ops = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne', ast.In: 'in_', ast.NotIn: 'notin',
               ast.Is: 'is_', ast.IsNot: 'isnot'}
        if len(n.ops) == 1:
            return call(ops[type(n.ops[0])], self.e(n.left), self.e(n.comparators[0]))
        # a < b < c: each operand evaluated once
        parts = [self.e(n.left)] + [self.e(c) for c in n.comparators]
        return call('chain', ast.List(elts=parts, ctx=ast.Load()), const(','.join(ops[type(o)] for o in n.ops)))

    def e_IfExp(self, n):
        return call('ifexp', self.e(n.test), lam(self.e(n.body)), lam(self.e(n.orelse)))

    def e_List(self, n):
        return call('list_', *[self.star(x) for x in n.elts])

    def star(self, x):
        if isinstance(x, ast.Starred):
            return ast.Starred(value=call('unstar', self.e(x.value)), ctx=ast.Load())
        return self.e(x)

    def e_Tuple(self, n):
        return ast.Tuple(elts=[self.star(x) for x in n.elts], ctx=ast.Load())

    def e_Set(self, n):
        return call('set_', *[self.e(x) for x in n.elts])

    def e_Dict(self, n):
        if any(k is None for k in n.keys):
            return call('dictmerge', *[(call('dict_', ast.Tuple(elts=[self.e(k), self.e(v)], ctx=ast.Load())) if k is not None else self.e(v))
                                       for k, v in zip(n.keys, n.values)])
        return call('dict_', *[ast.Tuple(elts=[self.e(k), self.e(v)], ctx=ast.Load()) for k, v in zip(n.keys, n.values)])

    def e_JoinedStr(self, n):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v)
            else:
                spec = const(None)
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec)
                out.append(call('fmt', self.e(v.value), const(v.conversion), spec))
        return call('fstr', *out)

    def e_Lambda(self, n):
        names = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        for a in (n.args.vararg, n.args.kwarg):
            if a:
                names.add(a.arg)
        args = self.args(n.args)
        self.scopes.append(('plain', None, names))
        b = self.e(n.body)
        self.scopes.pop()
        return ast.Lambda(args=args, body=b)

    def comp(self, gens, leaf):
        """nested comprehension"""
        g = gens[0]
        it = self.e(g.iter)
        names = targets(g.target)
        self.scopes.append(('plain', None, names))
        cond = None
        if g.ifs:
            c = [self.e(i) for i in g.ifs]
            cond = c[-1]
            for x in reversed(c[:-1]):
                cond = call('and_', x, lam(cond))
        body = self.comp(gens[1:], leaf) if len(gens) > 1 else leaf()
        self.scopes.pop()
        mk = lambda b: self.target_lambda(g.target, b)
        return call('comp', it, mk(body), mk(cond) if cond is not None else const(None), const(len(gens) > 1))

    def target_lambda(self, t, body):
        if isinstance(t, ast.Name):
            return ast.Lambda(args=plain_args([t.id]), body=body)
        v = self.tmp()
        names = []

        def build(t, val, b):
            if isinstance(t, ast.Name):
                return ast.Call(func=ast.Lambda(args=plain_args([t.id]), body=b), args=[val], keywords=[])
            if isinstance(t, (ast.Tuple, ast.List)):
                u = self.tmp()
                inner = b
                for i, x in reversed(list(enumerate(t.elts))):
                    inner = build(x, call('native', N(u), const(i)), inner)
                return ast.Call(func=ast.Lambda(args=plain_args([u]), body=inner), args=[call('unpack', val, const(len(t.elts)))], keywords=[])
            raise SyntaxError('comprehension target')
        return ast.Lambda(args=plain_args([v]), body=build(t, N(v), body))

    def e_ListComp(self, n):
        return self.comp(n.generators, lambda: self.e(n.elt))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n):
        return call('set_of', self.comp(n.generators, lambda: self.e(n.elt)))

    def e_DictComp(self, n):
        return call('dict_of', self.comp(n.generators, lambda: ast.Tuple(elts=[self.e(n.key), self.e(n.value)], ctx=ast.Load())))

    def e_Starred(self, n):
        return ast.Starred(value=call('unstar', self.e(n.value)), ctx=ast.Load())

    def e_NamedExpr(self, n):
        r = self.resolve(n.target.id)
        if r is None or r[0] == 'plain':
            return ast.NamedExpr(target=n.target, value=self.e(n.value))
        return call('fset', N(r[1]), const(n.target.id), self.e(n.value))

    # ---------------------------------------------------------------- statements
    def block(self, body):
        out = []
        for s in body:
            r = getattr(self, 's_' + type(s).__name__, self.s_generic)(s)
            for x in (r if isinstance(r, list) else [r]):
                ast.copy_location(x, s)
                for y in ast.walk(x):
                    if not hasattr(y, 'lineno') and isinstance(y, (ast.stmt, ast.expr, ast.excepthandler, ast.arg, ast.keyword, ast.alias)):
                        ast.copy_location(y, s)
                out.append(x)
        return out or [ast.Pass()]

    def s_generic(self, s):
        raise SyntaxError('%s: statement %s at line %d' % (self.modname, type(s).__name__, s.lineno))

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return ast.Expr(s.value)
        return ast.Expr(self.e(s.value))

    def s_Pass(self, s):
        return s

    def assign(self, t, v):
        """statements assigning the expression v (evaluated once) to target t"""
        if isinstance(t, ast.Name):
            return [self.store(t.id, v)]
        if isinstance(t, ast.Attribute):
            return [ast.Expr(call('setattr', self.e(t.value), const(t.attr), v))]
        if isinstance(t, ast.Subscript):
            return [ast.Expr(call('setitem', self.e(t.value), self.index(t.slice), v))]
        if isinstance(t, (ast.Tuple, ast.List)):
            u = self.tmp()
            if any(isinstance(x, ast.Starred) for x in t.elts):
                i = [isinstance(x, ast.Starred) for x in t.elts].index(True)
                out = [ast.Assign(targets=[N(u, ast.Store())], value=call('unpack_star', v, const(i), const(len(t.elts) - i - 1)))]
            else:
                out = [ast.Assign(targets=[N(u, ast.Store())], value=call('unpack', v, const(len(t.elts))))]
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    x = x.value
                out += self.assign(x, call('native', N(u), const(i)))
            return out
        raise SyntaxError('assignment target')

    def s_Assign(self, s):
        if len(s.targets) == 1:
            return self.assign(s.targets[0], self.e(s.value))
        u = self.tmp()
        out = [ast.Assign(targets=[N(u, ast.Store())], value=self.e(s.value))]
        for t in s.targets:
            out += self.assign(t, N(u))
        return out

    def s_AnnAssign(self, s):
        if s.value is None:
            return ast.Pass()
        return self.assign(s.target, self.e(s.value))

    def s_AugAssign(self, s):
        op = const(ARITH.get(type(s.op)) or type(s.op).__name__)
        v = self.e(s.value)
        t = s.target
        if isinstance(t, ast.Name):
            return [self.store(t.id, call('iop', op, self.load(t.id), v))]
        if isinstance(t, ast.Attribute):
            return [ast.Expr(call('aug_attr', self.e(t.value), const(t.attr), op, v))]
        return [ast.Expr(call('aug_item', self.e(t.value), self.index(t.slice), op, v))]

    def s_Delete(self, s):
        out = []
        for t in s.targets:
            if isinstance(t, ast.Name):
                r = self.resolve(t.id)
                if r is None or r[0] == 'plain':
                    out.append(ast.Delete(targets=[N(t.id, ast.Del())]))
                else:
                    out.append(ast.Expr(call('fdel', N(r[1]), const(t.id))))
            elif isinstance(t, ast.Subscript):
                out.append(ast.Expr(call('delitem', self.e(t.value), self.index(t.slice))))
            else:
                out.append(ast.Expr(call('delattr_', self.e(t.value), const(t.attr))))
        return out

    def s_If(self, s):
        return ast.If(test=self.e(s.test), body=self.block(s.body), orelse=self.block(s.orelse) if s.orelse else [])

    def s_Return(self, s):
        v = self.e(s.value) if s.value else const(None)
        if self.loop and self.loop[-1]:
            return ast.Return(value=call('Ret', v))
        return ast.Return(value=v)

    def s_Break(self, s):
        return ast.Return(value=A(N('_vc'), 'BRK'))

    def s_Continue(self, s):
        return ast.Return(value=const(None))

    def s_Raise(self, s):
        if s.exc is None:
            return ast.Raise(exc=None, cause=None)
        x = s.exc
        if isinstance(x, ast.Call):
            a = lam(ast.Tuple(elts=[self.e(z) for z in x.args], ctx=ast.Load()))
            return ast.Raise(exc=call('mkexc', self.e(x.func), a), cause=None)
        return ast.Raise(exc=self.e(x), cause=None)

    def s_Assert(self, s):
        return ast.Assert(test=self.e(s.test), msg=None)

    def s_Global(self, s):
        return ast.Pass()
    s_Nonlocal = s_Global

    def s_Import(self, s):
        out = []
        for a in s.names:
            if not self.in_func():
                out.append(ast.Import(names=[a]))
                continue
            nm = a.asname or a.name.split('.')[0]
            u = self.tmp()
            if a.asname or '.' not in a.name:
                out.append(ast.Import(names=[ast.alias(name=a.name, asname=u)]))
            else:
                out.append(ast.Import(names=[ast.alias(name=a.name)]))
                out.append(ast.Assign(targets=[N(u, ast.Store())], value=N(nm)))
            out.append(self.store(nm, N(u)))
        return out

    def s_ImportFrom(self, s):
        if not self.in_func():
            return s
        out = []
        for a in s.names:
            u = self.tmp()
            out.append(ast.ImportFrom(module=s.module, names=[ast.alias(name=a.name, asname=u)], level=s.level))
            out.append(self.store(a.asname or a.name, N(u)))
        return out

    def in_func(self):
        return any(k == 'frame' for k, _, _ in self.scopes)

    def s_Try(self, s):
        hs = []
        for h in s.handlers:
            body = []
            nm = None
            if h.name:
                nm = self.tmp()
                body.append(ast.copy_location(self.store(h.name, N(nm)), h))
            body += self.block(h.body)
            t = self.e(h.type) if h.type else N('Exception')
            hs.append(ast.ExceptHandler(type=t, name=nm, body=body))
        return ast.Try(body=self.block(s.body), handlers=hs, orelse=self.block(s.orelse) if s.orelse else [],
                       finalbody=self.block(s.finalbody) if s.finalbody else [])

    def s_With(self, s):
        items, pre = [], []
        for i in s.items:
            v = None
            if i.optional_vars is not None:
                u = self.tmp()
                v = N(u, ast.Store())
                pre += self.assign(i.optional_vars, N(u))
            items.append(ast.withitem(context_expr=self.e(i.context_expr), optional_vars=v))
        return ast.With(items=items, body=pre + self.block(s.body))

    def loop_body(self, pre, body):
        f = self.tmp() + 'body'
        self.loop[-1] += 1
        b = self.block(body)
        self.loop[-1] -= 1
        return f, pre + b

    def after_loop(self, s, callexpr, fdefs):
        u = self.tmp() + 's'
        out = fdefs + [ast.Assign(targets=[N(u, ast.Store())], value=callexpr)]
        if self.loop[-1]:
            prop = ast.Return(value=N(u))
        else:
            prop = ast.Return(value=A(N(u), 'value'))
        out.append(ast.If(test=call('is_ret', N(u)), body=[prop], orelse=[]))
        if s.orelse:
            out.append(ast.If(test=ast.Compare(left=N(u), ops=[ast.Is()], comparators=[const(None)]), body=self.block(s.orelse), orelse=[]))
        return out

    def s_For(self, s):
        if not self.in_func():
            # module level: keep native
            return ast.For(target=s.target, iter=call('native_iter', self.e(s.iter)), body=self.block(s.body), orelse=self.block(s.orelse) if s.orelse else [])
        it = self.e(s.iter)
        v = self.tmp() + 'it'
        f, b = self.loop_body(self.assign(s.target, N(v)), s.body)
        fd = ast.FunctionDef(name=f, args=plain_args([v]), body=b, decorator_list=[], returns=None, type_params=[])
        fr = self.frame()
        return self.after_loop(s, call('for_', it, N(f), N(fr), const(s.lineno)), [fd])

    def s_While(self, s):
        if not self.in_func():
            raise SyntaxError('module-level while')
        t = lam(self.e(s.test))
        f, b = self.loop_body([], s.body)
        fd = ast.FunctionDef(name=f, args=plain_args([]), body=b, decorator_list=[], returns=None, type_params=[])
        return self.after_loop(s, call('while_', t, N(f), N(self.frame()), const(s.lineno)), [fd])

    def frame(self):
        for k, v, _ in reversed(self.scopes):
            if k == 'frame':
                return v

    def args(self, a):
        return ast.arguments(posonlyargs=[ast.arg(arg=x.arg) for x in a.posonlyargs], args=[ast.arg(arg=x.arg) for x in a.args],
                             vararg=ast.arg(arg=a.vararg.arg) if a.vararg else None, kwonlyargs=[ast.arg(arg=x.arg) for x in a.kwonlyargs],
                             kw_defaults=[self.e(x) if x is not None else None for x in a.kw_defaults],
                             kwarg=ast.arg(arg=a.kwarg.arg) if a.kwarg else None, defaults=[self.e(x) for x in a.defaults])

    def s_FunctionDef(self, s):
        args = self.args(s.args)
        decs = [self.e(d) for d in s.decorator_list]
        params = [x.arg for x in s.args.posonlyargs + s.args.args + s.args.kwonlyargs]
        for x in (s.args.vararg, s.args.kwarg):
            if x:
                params.append(x.arg)
        loc, glob, nonl = stored_names(s.body)
        loc |= set(params)
        fv = '_F%d_' % next(self.ids)
        if glob:
            self.scopes.append(('global', glob, set()))
        self.scopes.append(('frame', fv, loc))
        self.loop.append(0)
        body = [ast.Assign(targets=[N(fv, ast.Store())],
                           value=ast.Call(func=A(N('_vc'), 'Frame'), args=[const(s.name)],
                                          keywords=[ast.keyword(arg=p, value=(call('vararg', N(p)) if s.args.vararg and p == s.args.vararg.arg else
                                                                              call('kwarg', N(p)) if s.args.kwarg and p == s.args.kwarg.arg else N(p))) for p in params if p != 'self'] +
                                                   ([ast.keyword(arg='self', value=N('self'))] if 'self' in params else [])))]
        body += self.block(s.body)
        self.loop.pop()
        self.scopes.pop()
        if glob:
            self.scopes.pop()
        if self.in_func():
            # a nested function: define under its own name, then store in the frame
            fd = ast.FunctionDef(name=s.name, args=args, body=body, decorator_list=decs, returns=None, type_params=[])
            return [fd, self.store(s.name, N(s.name))]
        return ast.FunctionDef(name=s.name, args=args, body=body, decorator_list=decs, returns=None, type_params=[])

    def s_ClassDef(self, s):
        if self.in_func():
            raise SyntaxError('class inside of a function')
        bases = [self.e(b) for b in s.bases if not (isinstance(b, ast.Name) and b.id == 'object')]
        if not bases:
            bases = [A(N('_vc'), 'Obj')]
        decs = [self.e(d) for d in s.decorator_list]
        body = []
        # class level names are plain
        loc, _, _ = stored_names(s.body)
        for x in s.body:
            body += self.block([x])
        return ast.ClassDef(name=s.name, bases=bases, keywords=[], body=body, decorator_list=decs, type_params=[])


def lam(e):
    return ast.Lambda(args=plain_args([]), body=e)


def plain_args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])


def targets(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        r = set()
        for x in t.elts:
            r |= targets(x)
        return r
    raise SyntaxError('target')


def transform(src, modname):
    tree = ast.parse(src)
    x = Xf(modname)
    m = ast.Module(body=x.block(tree.body), type_ignores=[])
    ast.fix_missing_locations(m)
    return m


CODE = {}


class World:
    """The loaded (translated) modules of one run."""

    def __init__(self, repo=None, fakes=None):
        self.repo = repo or REPO
        self.mods = {}
        from . import models
        self.fakes = models.fakes()
        if fakes:
            self.fakes.update(fakes)
        self.vc = models.VC()
        self.sources = {}

    def path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, pkg = self.path(name)
        if not os.path.exists(path):
            raise ImportError(name)
        m = types.ModuleType(name)
        m.__file__ = path
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__package__ = name if pkg else name.rsplit('.', 1)[0]
        self.mods[name] = m
        src = open(path).read()
        self.sources[name] = src
        code = CODE.get((name, src))
        if code is None:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = transform(src, name)
                code = compile(tree, path, 'exec')
            CODE[(name, src)] = code
        from . import models
        b = dict(vars(builtins))
        b.update(models.BUILTINS)
        b['__import__'] = self.import_
        m.__dict__['__builtins__'] = b
        m.__dict__['_vc'] = self.vc
        if '.' in name:
            # (import a.b as c, while a is still being imported)
            setattr(self.mods[name.rsplit('.', 1)[0]], name.rsplit('.', 1)[1], m)
        exec(code, m.__dict__)
        return m

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__'].split('.')
            base = base[:len(base) - level + 1]
            name = '.'.join(base + ([name] if name else []))
        top = name.split('.')[0]
        if top == 'ghedt':
            m = self.load(name)
            if not fromlist:
                return self.mods[top]
            for f in fromlist:
                if not hasattr(m, f) and f != '*':
                    self.load(name + '.' + f)
            return m
        if name in self.fakes:
            m = self.fakes[name]
        elif top in self.fakes:
            m = self.fakes[top]
            for p in name.split('.')[1:]:
                m = getattr(m, p)
        elif top in ('typing', 'abc', 'enum', 'calendar', '__future__', 'numbers', 'dataclasses', 'itertools_', 'os', 're', 'time', 'datetime', 'functools', 'operator', 'string', 'sys'):
            m = builtins.__import__(name, globals, locals, fromlist, 0)
            return m
        else:
            from .models import Opaque
            m = Opaque(name)
            return m if fromlist else Opaque(top)
        if fromlist:
            return m
        if top in self.fakes:
            return self.fakes[top]
        return m
