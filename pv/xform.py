"""Mechanical transformation of the source before symbolic execution.

The text executed by the verifier is /repo's current source, parsed on every run.  The transformation keeps
every statement and expression; it only routes attribute stores, subscripts, method look-ups, star calls, list
displays, comprehensions and loops through pv/rt.py so that they work on symbolic values.  Dropped: annotations.
"""
import ast

PV = '_pv_rt'


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def const(v):
    return ast.Constant(value=v)


def rt(fn, *args, kw=()):
    return ast.Call(func=ast.Attribute(value=name(PV), attr=fn, ctx=ast.Load()), args=list(args), keywords=list(kw))


class Assigned(ast.NodeVisitor):
    """Names (re)bound by a list of statements in the current scope."""

    def __init__(self):
        self.n = []
        self.glob = False

    def add(self, x):
        if x not in self.n:
            self.n.append(x)

    def visit_Name(self, v):
        if isinstance(v.ctx, (ast.Store, ast.Del)):
            self.add(v.id)

    def visit_FunctionDef(self, v):
        self.add(v.name)
        for d in ast.walk(v):
            if isinstance(d, ast.Nonlocal):
                for x in d.names:
                    self.add(x)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, v):
        self.add(v.name)

    def visit_Lambda(self, v):
        pass

    def visit_ExceptHandler(self, v):
        if v.name:
            self.add(v.name)
        self.generic_visit(v)

    def visit_Import(self, v):
        for a in v.names:
            self.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import


def assigned(stmts):
    a = Assigned()
    for s in stmts:
        a.visit(s)
    return a.n


class Lift(ast.NodeVisitor):
    def __init__(self):
        self.found = False

    def visit_ListComp(self, v):
        self.found = True
    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp


def has_comp(n):
    v = Lift()
    v.visit(n)
    return v.found


class X(ast.NodeTransformer):
    def __init__(self, modname, record):
        self.mod = modname
        self.record = record
        self.k = 0
        self.prelude = None
        self.classes = []
        self.scope = []
        self.nonlocals = [set()]      # names rebound by nested functions, per function
        self.declared = [set()]       # nonlocal/global names of the current function
        self.glob = [set()]

    def tmp(self, p='t'):
        self.k += 1
        return '_pv_%s%d' % (p, self.k)

    # ---- statements ------------------------------------------------------------------------------------
    def stmts(self, body):
        out = []
        for s in body:
            old = self.prelude
            self.prelude = []
            r = self.visit(s)
            pre = self.prelude
            self.prelude = old
            out.extend(pre)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_Module(self, n):
        n.body = self.stmts(n.body)
        return n

    def mangle(self, a):
        if self.classes and a.startswith('__') and not a.endswith('__'):
            return '_' + self.classes[-1].lstrip('_') + a
        return a

    def args(self, a):
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        return a

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.args(n.args)
        n.returns = None
        self.scope.append(n.name)
        nl, decl, gl = set(), set(), set()
        for d in ast.walk(n):
            if isinstance(d, ast.Nonlocal):
                nl |= set(d.names)
        for s in n.body:
            for d in walk_scope(s):
                if isinstance(d, (ast.Nonlocal, ast.Global)):
                    decl |= set(d.names)
                if isinstance(d, ast.Global):
                    gl |= set(d.names)
        self.nonlocals.append(nl)
        self.declared.append(decl)
        self.glob.append(gl)
        old = self.prelude
        doc = []
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        body = self.stmts(body)
        self.prelude = old
        self.nonlocals.pop()
        self.declared.pop()
        self.glob.pop()
        pro = []
        if self.record:
            pro.append(ast.Expr(rt('enter', const(self.mod + ':' + '.'.join(self.scope)))))
        if n.args.vararg:
            v = n.args.vararg.arg
            pro.append(ast.Assign(targets=[name(v, ast.Store())], value=rt('varargs', name(v))))
        # global/nonlocal declarations must stay in front of uses
        n.body = doc + pro + body or [ast.Pass()]
        self.scope.pop()
        return n
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(b) for b in n.bases]
        for k in n.keywords:
            k.value = self.visit(k.value)
        self.scope.append(n.name)
        self.classes.append(n.name)
        old = self.prelude
        n.body = self.stmts(n.body)
        self.prelude = old
        self.classes.pop()
        self.scope.pop()
        return n

    def visit_Lambda(self, n):
        if has_comp(n.body):
            f = self.tmp('lam')
            d = ast.FunctionDef(name=f, args=n.args, body=[ast.Return(n.body)], decorator_list=[], returns=None, type_params=[])
            d = self.visit(d)
            self.prelude.append(d)
            return name(f)
        n.args = self.args(n.args)
        n.body = self.visit(n.body)
        return n

    def store(self, t, value):
        """Statements that store the (already transformed) value expression into target t."""
        if isinstance(t, ast.Name):
            out = [ast.Assign(targets=[t], value=value)]
            if t.id in self.declared[-1]:
                out.append(ast.Expr(rt('wrote_cell', const(t.id))))
            return out
        if isinstance(t, ast.Attribute):
            return [ast.Expr(rt('setattr', self.visit(t.value), const(self.mangle(t.attr)), value))]
        if isinstance(t, ast.Subscript):
            return [ast.Expr(rt('setitem', self.visit(t.value), self.slice(t.slice), value))]
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            new = []
            post = []
            star = None
            for e in t.elts:
                if isinstance(e, ast.Starred):
                    x = self.tmp()
                    star = len(new)
                    new.append(name(x, ast.Store()))
                    post.append((e.value, name(x)))
                elif isinstance(e, ast.Name) and e.id not in self.declared[-1]:
                    new.append(e)
                else:
                    x = self.tmp()
                    new.append(name(x, ast.Store()))
                    post.append((e, name(x)))
            out.append(ast.Assign(targets=[ast.Tuple(elts=new, ctx=ast.Store())], value=rt('unpack', value, const(len(new))) if star is None else rt('unpack_star', value, const(star), const(len(new) - star - 1))))
            for e, v in post:
                out.extend(self.store(e, v))
            return out
        raise SyntaxError('target')

    def visit_Assign(self, n):
        v = self.visit(n.value)
        if len(n.targets) == 1:
            return self.store(n.targets[0], v)
        x = self.tmp()
        out = [ast.Assign(targets=[name(x, ast.Store())], value=v)]
        for t in n.targets:
            out.extend(self.store(t, name(x)))
        return out

    def visit_AnnAssign(self, n):
        if n.value is None:
            return n if self.scope and self.classes and self.scope[-1] == self.classes[-1] else None
        v = self.visit(n.value)
        if isinstance(n.target, ast.Name) and self.classes and self.scope[-1] == self.classes[-1]:
            n.value = v
            return n
        return self.store(n.target, v)

    def visit_AugAssign(self, n):
        op = const(type(n.op).__name__)
        v = self.visit(n.value)
        t = n.target
        if isinstance(t, ast.Name):
            out = [ast.Assign(targets=[t], value=rt('iop', op, name(t.id), v))]
            if t.id in self.declared[-1]:
                out.append(ast.Expr(rt('wrote_cell', const(t.id))))
            return out
        x = self.tmp()
        if isinstance(t, ast.Attribute):
            a = self.mangle(t.attr)
            return [ast.Assign(targets=[name(x, ast.Store())], value=self.visit(t.value)),
                    ast.Expr(rt('setattr', name(x), const(a), rt('iop', op, ast.Attribute(value=name(x), attr=t.attr, ctx=ast.Load()), v)))]
        y = self.tmp()
        return [ast.Assign(targets=[name(x, ast.Store())], value=self.visit(t.value)),
                ast.Assign(targets=[name(y, ast.Store())], value=self.slice(t.slice)),
                ast.Expr(rt('setitem', name(x), name(y), rt('iop', op, rt('getitem', name(x), name(y)), v)))]

    def visit_Delete(self, n):
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(rt('delitem', self.visit(t.value), self.slice(t.slice))))
            elif isinstance(t, ast.Attribute):
                out.append(ast.Expr(rt('delattr', self.visit(t.value), const(self.mangle(t.attr)))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    def visit_If(self, n):
        n.test = self.visit(n.test)
        pre = self.prelude
        n.body = self.stmts(n.body) or [ast.Pass()]
        n.orelse = self.stmts(n.orelse)
        self.prelude = pre
        return n

    def visit_With(self, n):
        for i in n.items:
            i.context_expr = self.visit(i.context_expr)
        pre = self.prelude
        n.body = self.stmts(n.body) or [ast.Pass()]
        self.prelude = pre
        return n
    visit_AsyncWith = visit_With

    def visit_AsyncFor(self, n):
        pre = self.prelude
        n.iter = self.visit(n.iter)
        n.body = self.stmts(n.body) or [ast.Pass()]
        n.orelse = self.stmts(n.orelse)
        self.prelude = pre
        return n

    def visit_Try(self, n):
        pre = self.prelude
        n.body = self.stmts(n.body) or [ast.Pass()]
        hs = []
        for h in n.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = [ast.Expr(rt('caught'))] + self.stmts(h.body)
            hs.append(h)
        if hs:
            hs.insert(0, ast.ExceptHandler(type=ast.Attribute(value=name(PV), attr='EngineSignal', ctx=ast.Load()), name=None, body=[ast.Raise(exc=None, cause=None)]))
        n.handlers = hs
        n.orelse = self.stmts(n.orelse)
        n.finalbody = self.stmts(n.finalbody)
        self.prelude = pre
        return n

    # ---- loops -------------------------------------------------------------------------------------------
    def loop(self, n, make, step, more):
        L, V = self.tmp('L'), self.tmp('v')
        names = [x for x in assigned(n.body + ([ast.Assign(targets=[n.target], value=const(0))] if isinstance(n, ast.For) else [ast.Expr(n.test)])) if not x.startswith('_pv_')]
        for x in sorted(self.nonlocals[-1]):
            if x not in names:
                names.append(x)
        names = [x for x in names if x not in self.glob[-1]]
        pre = self.prelude
        body = self.stmts(n.body)
        orelse = self.stmts(n.orelse)
        self.prelude = pre
        site = '%s:%d:%d:%s' % (self.mod, n.lineno, n.col_offset, '.'.join(self.scope))
        head = [ast.Assign(targets=[name(V, ast.Store())], value=rt('head', name(L), ast.Call(func=name('locals'), args=[], keywords=[])))]
        for x in names:
            head.append(ast.If(test=ast.Compare(left=const(x), ops=[ast.In()], comparators=[name(V)]),
                               body=[ast.Assign(targets=[name(x, ast.Store())], value=ast.Subscript(value=name(V), slice=const(x), ctx=ast.Load()))], orelse=[]))
        done = self.tmp('d')
        stop = ([ast.Assign(targets=[name(done, ast.Store())], value=const(True))] if orelse else []) + [ast.Break()]
        w = ast.While(test=const(True), orelse=[], body=head + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=more(L)), body=stop, orelse=[])] + step(L) + body)
        out = [ast.Assign(targets=[name(L, ast.Store())], value=make(const(site), ast.Tuple(elts=[const(x) for x in names], ctx=ast.Load())))]
        if orelse:
            out.append(ast.Assign(targets=[name(done, ast.Store())], value=const(False)))
        out.append(ast.Try(body=[w], handlers=[], orelse=[], finalbody=[ast.Expr(rt('leave', name(L)))]))
        if orelse:
            out.append(ast.If(test=name(done), body=orelse, orelse=[]))
        return out

    def visit_For(self, n):
        i = n.iter
        if isinstance(i, ast.Call) and isinstance(i.func, ast.Name) and i.func.id == 'iter' and len(i.args) == 2 and not i.keywords and not n.orelse \
                and not any(isinstance(a, ast.Starred) for a in i.args):
            # iter(f, end): call f until it returns end
            f, e, v = self.tmp('f'), self.tmp('e'), self.tmp('x')
            new = [ast.Assign(targets=[name(f, ast.Store())], value=i.args[0]), ast.Assign(targets=[name(e, ast.Store())], value=i.args[1]),
                   ast.While(test=const(True), orelse=[], body=[
                       ast.Assign(targets=[name(v, ast.Store())], value=ast.Call(func=name(f), args=[], keywords=[])),
                       ast.If(test=ast.Compare(left=name(v), ops=[ast.Eq()], comparators=[name(e)]), body=[ast.Break()], orelse=[]),
                       ast.Assign(targets=[n.target], value=name(v))] + n.body)]
            for s in new:
                ast.copy_location(s, n)
                ast.fix_missing_locations(s)
            return self.stmts(new)
        it = self.visit(n.iter)
        return self.loop(n, lambda site, names: rt('loop_for', site, names, it),
                         lambda L: self.store(n.target, ast.Call(func=ast.Attribute(value=name(L), attr='item', ctx=ast.Load()), args=[], keywords=[])),
                         lambda L: ast.Call(func=ast.Attribute(value=name(L), attr='more', ctx=ast.Load()), args=[], keywords=[]))

    def visit_While(self, n):
        import copy
        t0 = copy.deepcopy(n.test)
        test = self.visit(n.test)
        n.test = t0
        return self.loop(n, lambda site, names: rt('loop_while', site, names), lambda L: [],
                         lambda L: ast.Call(func=ast.Attribute(value=name(L), attr='test', ctx=ast.Load()), args=[test] + ([const(True)] if isinstance(t0, ast.Constant) else []), keywords=[]))

    # ---- expressions ------------------------------------------------------------------------------------
    def slice(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: self.visit(x) if x is not None else const(None)
            return rt('slice_', f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return ast.Tuple(elts=[self.slice(e) for e in s.elts], ctx=ast.Load())
        return self.visit(s)

    def visit_Subscript(self, n):
        return rt('getitem', self.visit(n.value), self.slice(n.slice))

    def visit_List(self, n):
        return rt('mkparts', const('list'), *self.parts(n.elts)) if any(isinstance(e, ast.Starred) for e in n.elts) else \
            rt('mklist', ast.List(elts=[self.visit(e) for e in n.elts], ctx=ast.Load()))

    def visit_Tuple(self, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return rt('mkparts', const('tuple'), *self.parts(n.elts))
        n.elts = [self.visit(e) for e in n.elts]
        return n

    def parts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.append(rt('Star', self.visit(e.value)))
            else:
                out.append(self.visit(e))
        return out

    def comp(self, n, kind, extra=()):
        f = self.tmp('c')
        out = '_pv_out'
        gens = n.generators
        if any(g.is_async for g in gens):
            raise SyntaxError('async comprehension')
        if kind == 'list':
            inner = [ast.Expr(ast.Call(func=ast.Attribute(value=name(out), attr='append', ctx=ast.Load()), args=[n.elt], keywords=[]))]
            init, fin = ast.List(elts=[], ctx=ast.Load()), name(out)
        elif kind == 'set':
            inner = [ast.Expr(ast.Call(func=ast.Attribute(value=name(out), attr='add', ctx=ast.Load()), args=[n.elt], keywords=[]))]
            init, fin = ast.Call(func=name('set'), args=[], keywords=[]), name(out)
        elif kind == 'dict':
            inner = [ast.Assign(targets=[ast.Subscript(value=name(out), slice=n.key, ctx=ast.Store())], value=n.value)]
            init, fin = ast.Dict(keys=[], values=[]), name(out)
        elif kind == 'next':
            inner = [ast.Return(n.elt)]
            init = const(None)
            fin = name('_pv_else') if extra else None
        else:
            c = n.elt if kind == 'any' else ast.UnaryOp(op=ast.Not(), operand=n.elt)
            inner = [ast.If(test=c, body=[ast.Return(const(kind == 'any'))], orelse=[])]
            init, fin = const(None), const(kind != 'any')
        body = inner
        for i in range(len(gens) - 1, -1, -1):
            g = gens[i]
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter if i else name('_pv_it'), body=body, orelse=[], lineno=n.lineno, col_offset=n.col_offset)]
        first = self.visit(gens[0].iter)
        d = ast.FunctionDef(name=f, args=ast.arguments(posonlyargs=[], args=[ast.arg('_pv_it')] + [ast.arg('_pv_else')] * len(extra), kwonlyargs=[], kw_defaults=[], defaults=[]),
                            body=[ast.Assign(targets=[name(out, ast.Store())], value=init)] + body + [ast.Return(fin) if fin is not None else ast.Raise(exc=name('StopIteration'), cause=None)], decorator_list=[], returns=None, type_params=[])
        for s in ast.walk(d):
            if not hasattr(s, 'lineno') and isinstance(s, (ast.stmt, ast.expr)):
                s.lineno, s.col_offset = n.lineno, n.col_offset
        rec, self.record = self.record, False
        d = self.visit(d)
        self.record = rec
        self.prelude.append(d)
        return ast.Call(func=name(f), args=[first] + [self.visit(x) for x in extra], keywords=[])

    def visit_ListComp(self, n):
        return self.comp(n, 'list')

    def visit_SetComp(self, n):
        return self.comp(n, 'set')

    def visit_DictComp(self, n):
        return self.comp(n, 'dict')

    def visit_GeneratorExp(self, n):
        return self.comp(n, 'list')

    def visit_Compare(self, n):
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops) and len(n.ops) == 1:
            r = rt('contains', self.visit(n.left), self.visit(n.comparators[0]))
            return r if isinstance(n.ops[0], ast.In) else ast.UnaryOp(op=ast.Not(), operand=r)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            r = rt('is_', self.visit(n.left), self.visit(n.comparators[0]))
            return r if isinstance(n.ops[0], ast.Is) else ast.UnaryOp(op=ast.Not(), operand=r)
        self.generic_visit(n)
        return n

    def visit_JoinedStr(self, n):
        vals = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                vals.append(rt('fmt', self.visit(v.value)))
            else:
                vals.append(v)
        return rt('fstr', *vals)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return rt('mod', n.left, n.right)
        return n

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name):
            if f.id in ('any', 'all') and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
                return self.comp(n.args[0], f.id)
            if f.id in ('any', 'all') and len(n.args) == 1 and not isinstance(n.args[0], ast.Starred) and not n.keywords:
                x = '_pv_item'
                g = ast.GeneratorExp(elt=name(x), generators=[ast.comprehension(target=ast.Name(id=x, ctx=ast.Store()), iter=n.args[0], ifs=[], is_async=0)])
                return self.comp(ast.fix_missing_locations(ast.copy_location(g, n)), f.id)
            if f.id == 'next' and n.args and isinstance(n.args[0], ast.GeneratorExp) and len(n.args) <= 2 and not n.keywords:
                return self.comp(n.args[0], 'next', n.args[1:])
            if f.id == 'type' and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                return rt('type_', self.visit(n.args[0]))
            if f.id in ('super', 'locals', 'globals', 'vars', 'dir') and not n.args:
                return n
        if isinstance(f, ast.Attribute):
            g = rt('attr', self.visit(f.value), const(self.mangle(f.attr)))
        else:
            g = self.visit(f)
        if any(isinstance(a, ast.Starred) for a in n.args):
            kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in n.keywords]
            return rt('call', g, ast.Tuple(elts=self.parts(n.args), ctx=ast.Load()), ast.Call(func=name('dict'), args=[], keywords=kws) if kws else ast.Dict(keys=[], values=[]))
        return ast.Call(func=g, args=[self.visit(a) for a in n.args], keywords=[ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in n.keywords])


def walk_scope(s):
    todo = [s]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


_CACHE = {}


def compile_file(path, modname, record):
    k = (path, modname)
    if k not in _CACHE:
        with open(path, 'rb') as h:
            src = h.read()
        t = ast.parse(src, path)
        t = X(modname, record).visit(t)
        ast.fix_missing_locations(t)
        _CACHE[k] = compile(t, path, 'exec')
    return _CACHE[k]
