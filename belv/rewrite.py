"""Mechanical extraction: /repo's source -> the text executed in the symbolic processes.

Only syntax-directed, semantics-preserving replacements are made (listed in
DESIGN.md, 'what the extraction changes'):
  * `import numpy as X` additionally rebinds X to the numpy stand-in;
  * builtins (len, range, zip, enumerate, sum, min, max, isinstance, sorted, list,
    tuple, any, all, float, int, reversed, abs, iter, round) go through `__bv.b_*`,
    which call the real builtin unless an argument has symbolic size;
  * `for` statements and comprehensions go through `__bv.for_loop / listcomp`,
    which iterate natively unless the iterable has symbolic length;
  * attribute / item stores go through `__bv.setattr_ / setitem_` (native effect,
    recorded inside a summarised loop body).
"""
import ast

BUILTINS = {'len', 'range', 'zip', 'enumerate', 'sum', 'min', 'max', 'isinstance', 'sorted', 'list', 'tuple',
            'any', 'all', 'float', 'int', 'reversed', 'abs', 'iter', 'round'}


class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names, self.bad = set(), False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    def visit_AsyncFunctionDef(self, n):
        self.bad = True

    def visit_ClassDef(self, n):
        self.bad = True

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for g in n.generators[:1]:
            self.visit(g.iter)
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.bad = True
    visit_YieldFrom = visit_Await = visit_Yield
    visit_Global = visit_Nonlocal = visit_Yield
    visit_NamedExpr = visit_Yield

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'vars', 'eval', 'exec'):
            if n.func.id != 'super' or not n.args:
                self.bad = True
        self.generic_visit(n)


class _Flow(ast.NodeTransformer):
    """continue/break/return of the loop being turned into a closure"""

    def __init__(self):
        self.depth = 0
        self.has_ret = False

    def visit_FunctionDef(self, n):
        return n
    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def _loop(self, n):
        self.depth += 1
        n.body = self._list(n.body)
        self.depth -= 1
        n.orelse = self._list(n.orelse)
        return n

    def _list(self, xs):
        out = []
        for x in xs:
            r = self.visit(x)
            out.extend(r if isinstance(r, list) else [r])
        return out

    visit_For = visit_While = _loop

    def visit_Continue(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(value=None), n)

    def visit_Break(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(value=_bv('BREAK')), n)

    def visit_Return(self, n):
        if isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == 'bv__' \
                and n.value.attr == 'BREAK':
            return n
        self.has_ret = True
        v = n.value or ast.Constant(None)
        return ast.copy_location(ast.Return(value=ast.Call(func=_bv('Ret'), args=[v], keywords=[])), n)


def _bv(name):
    return ast.Attribute(value=ast.Name(id='bv__', ctx=ast.Load()), attr=name, ctx=ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, full):
        self.mod, self.full = modname, full
        self.fn = []
        self.n = 0

    # -- imports ------------------------------------------------------------
    def visit_Import(self, n):
        out = [n]
        for a in n.names:
            if a.name == 'numpy':
                nm = a.asname or 'numpy'
                out.append(ast.copy_location(ast.Assign(
                    targets=[ast.Name(id=nm, ctx=ast.Store())], value=_bv('np')), n))
        return out

    def visit_ImportFrom(self, n):
        out = [n]
        if n.module == 'numpy' and n.level == 0:
            for a in n.names:
                nm = a.asname or a.name
                if nm != '*':
                    out.append(ast.copy_location(ast.Assign(
                        targets=[ast.Name(id=nm, ctx=ast.Store())],
                        value=ast.Attribute(value=_bv('np'), attr=a.name, ctx=ast.Load())), n))
        return out

    # -- functions ------------------------------------------------------------
    def visit_FunctionDef(self, n):
        self.fn.append(n)
        n.body = self._stmts(n.body)
        self.fn.pop()
        return n

    def visit_ClassDef(self, n):
        self.fn.append(None)
        n.body = self._stmts(n.body)
        self.fn.pop()
        return n

    def _stmts(self, xs):
        out = []
        for x in xs:
            r = self.visit(x)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in (BUILTINS if self.full else ('float',)) \
                and not any(isinstance(a, ast.Starred) for a in n.args):
            n.func = ast.copy_location(_bv('b_' + n.func.id), n.func)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if self.full and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(func=_bv('mklist'), args=[n], keywords=[]), n)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return self._comp(n, 'listcomp')

    def visit_GeneratorExp(self, n):
        self.generic_visit(n)
        return self._comp(n, 'listcomp')

    def _comp(self, n, name):
        if not self.full or len(n.generators) != 1 or n.generators[0].is_async:
            return n
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n)):
            return n
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(n)):
            return n
        g = n.generators[0]

        def lam(e):
            inner = ast.ListComp(elt=e, generators=[ast.comprehension(
                target=g.target, iter=ast.Tuple(elts=[ast.Name(id='x__', ctx=ast.Load())], ctx=ast.Load()),
                ifs=[], is_async=0)])
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='x__')], kwonlyargs=[],
                                                 kw_defaults=[], defaults=[]),
                              body=ast.Subscript(value=inner, slice=ast.Constant(0), ctx=ast.Load()))
        cond = ast.Constant(None)
        if g.ifs:
            cond = lam(ast.BoolOp(op=ast.And(), values=list(g.ifs)) if len(g.ifs) > 1 else g.ifs[0])
        return ast.copy_location(ast.Call(func=_bv(name), args=[lam(n.elt), g.iter, cond], keywords=[]), n)

    # -- stores ------------------------------------------------------------------
    def visit_Assign(self, n):
        self.generic_visit(n)
        if not self.full or not self._infn():
            return n
        if len(n.targets) == 1:
            t = n.targets[0]
            r = self._store(t, n.value)
            if r is not None:
                return ast.copy_location(ast.Expr(value=r), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        return n

    def _store(self, t, v):
        if isinstance(t, ast.Attribute):
            return ast.Call(func=_bv('setattr_'), args=[t.value, ast.Constant(t.attr), v], keywords=[])
        if isinstance(t, ast.Subscript):
            sl = t.slice
            return ast.Call(func=_bv('setitem_'), args=[t.value, _slice(sl), v], keywords=[])
        return None

    def _infn(self):
        return bool(self.fn) and self.fn[-1] is not None

    # -- loops --------------------------------------------------------------------
    def visit_For(self, n):
        n.iter = self.visit(n.iter)
        n.body = self._stmts(n.body)
        n.orelse = self._stmts(n.orelse)
        if not self.full or not self._infn() or n.orelse:
            return n
        a = _Assigned()
        a.visit(n.target)
        for s in n.body:
            a.visit(s)
        if a.bad:
            return n
        params = {x.arg for x in self.fn[-1].args.args + self.fn[-1].args.kwonlyargs + self.fn[-1].args.posonlyargs}
        names = sorted(x for x in a.names)
        self.n += 1
        fname = 'body_%d__' % self.n
        fl = _Flow()
        body = fl._list(n.body)
        head = [ast.Assign(targets=[n.target], value=ast.Name(id='item__', ctx=ast.Load()))]
        fdef = ast.FunctionDef(
            name=fname,
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='item__')], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=([ast.Nonlocal(names=names)] if names else []) + head + body, decorator_list=[], returns=None,
            type_params=[])
        pre = ast.If(test=ast.Constant(0), body=[
            ast.Assign(targets=[ast.Name(id=x, ctx=ast.Store())], value=ast.Constant(None)) for x in names]
            or [ast.Pass()], orelse=[])
        call = ast.Call(func=_bv('for_loop'), args=[
            n.iter, ast.Name(id=fname, ctx=ast.Load()),
            ast.Constant('%s:%d' % (self.mod, n.lineno)),
            ast.Tuple(elts=[ast.Constant(x) for x in names], ctx=ast.Load())], keywords=[])
        rname = 'r_%d__' % self.n
        out = [pre, fdef, ast.Assign(targets=[ast.Name(id=rname, ctx=ast.Store())], value=call)]
        if fl.has_ret:
            out.append(ast.If(test=ast.Call(func=_bv('is_ret'), args=[ast.Name(id=rname, ctx=ast.Load())], keywords=[]),
                              body=[ast.Return(value=ast.Attribute(value=ast.Name(id=rname, ctx=ast.Load()),
                                                                   attr='v', ctx=ast.Load()))], orelse=[]))
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out


def _slice(s):
    if isinstance(s, ast.Slice):
        c = lambda x: x if x is not None else ast.Constant(None)
        return ast.Call(func=ast.Name(id='slice', ctx=ast.Load()), args=[c(s.lower), c(s.upper), c(s.step)], keywords=[])
    if isinstance(s, ast.Tuple):
        return ast.Tuple(elts=[_slice(e) for e in s.elts], ctx=ast.Load())
    return s


def rewrite(src, path, modname, full):
    tree = ast.parse(src, path)
    tree = Rewriter(modname, full).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)
