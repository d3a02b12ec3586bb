#!/usr/bin/env python3
"""refactor.py NAME[,NAME..] [--tests] [--checks C01,C02] [--files a.py,b.py] [--funcs f,g] [--keep DIR]
Apply behaviour-preserving rewrites to a scratch copy of /repo, (optionally) run the stable tests there, and run the checks against it:
every check has to stay quiet.  'all' runs every rewrite in turn."""
import warnings; warnings.simplefilter("ignore")
import ast, sys, os, shutil, subprocess, tempfile, json, glob, copy, time
from concurrent.futures import ThreadPoolExecutor

FRESH = [0]
def fresh(p='tmp'):
    FRESH[0] += 1
    return '%s_%d' % (p, FRESH[0])
def N(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())
def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}
def locals_of(f):
    r = {a.arg for a in f.args.args + f.args.kwonlyargs + getattr(f.args, 'posonlyargs', [])}
    for a in (f.args.vararg, f.args.kwarg):
        if a:
            r.add(a.arg)
    r |= {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    r |= {(a.asname or a.name).split('.')[0] for s in f.body for x in ast.walk(s) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
    r |= {x.name for s in f.body for x in ast.walk(s) if isinstance(x, ast.ExceptHandler) and x.name}
    return r
def parse(s):
    return ast.parse(s).body
def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
class Blocks(ast.NodeTransformer):
    """rewrites statement lists; stmt(s, rest) -> list of statements or None"""
    def blocks(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block(b, node))
        return node
    def block(self, b, owner):
        out = []
        for s in b:
            r = self.stmt(s)
            out += [s] if r is None else r
        return out
    def generic_visit(self, node):
        super().generic_visit(node)
        return self.blocks(node)
    def stmt(self, s):
        return None
class InFunc(Blocks):
    def __init__(self):
        self.stack = []
    def visit_FunctionDef(self, n):
        self.stack.append(n)
        r = self.generic_visit(n)
        self.stack.pop()
        return r
    def block(self, b, owner):
        return super().block(b, owner) if self.stack else b
    def visit_Lambda(self, n):
        return n

class ReturnTemp(InFunc):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            t = fresh('result')
            return [ast.Assign([N(t, 1)], s.value), ast.Return(N(t))]
class CondTemp(InFunc):
    def stmt(self, s):
        if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)) and s in getattr(self, 'plain', [s]):
            t = fresh('cond')
            v = s.test
            s.test = N(t)
            return [ast.Assign([N(t, 1)], v), s]
class Invert(InFunc):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If) and False):
            t = s.test
            t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
            return [ast.If(t, s.orelse, s.body)]
class IfExpInvert(ast.NodeTransformer):
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
class ElseAfterReturn(InFunc):
    def block(self, b, owner):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and b[i + 1:]:
                s.orelse = self.block(b[i + 1:], s)
                return b[:i + 1]
        return b
class NoElse(InFunc):
    """if c: return x / else: rest  ->  if c: return x; rest"""
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and ends(s.body):
            o, s.orelse = s.orelse, []
            return [s] + o
class NestAnd(InFunc):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            v = s.test.values
            inner = s.body
            for t in reversed(v):
                inner = [ast.If(t, inner, [])]
            return inner
class DeMorgan(ast.NodeTransformer):
    def __init__(self):
        pass
    def cond(self, t):
        if isinstance(t, ast.BoolOp):
            n = lambda x: x.operand if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) else ast.UnaryOp(ast.Not(), x)
            return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(t.op, ast.And) else ast.And(), [n(x) for x in t.values]))
        return t
    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.cond(n.test)
        return n
    def visit_While(self, n):
        self.generic_visit(n)
        n.test = self.cond(n.test)
        return n
OPP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEG = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
class SwapCompare(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in OPP and not any(isinstance(x, ast.Call) for x in ast.walk(n)):
            return ast.Compare(n.comparators[0], [OPP[type(n.ops[0])]()], [n.left])
        return n
class NegCompare(ast.NodeTransformer):
    """a == b -> not a != b"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Is, ast.IsNot)):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [NEG[type(n.ops[0])]()], n.comparators))
        return n
class Aug(InFunc):
    """x += e for numbers written out (a list that is extended keeps its +=)"""
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
            return [ast.Assign([s.target], ast.BinOp(N(s.target.id), s.op, s.value))]
class CompLoop(InFunc):
    """x = [e for ...] / return [e for ...] -> loop with append"""
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp):
            c = s.value
            if not self.stack or any(isinstance(x, (ast.Lambda, ast.Yield)) for x in ast.walk(c)):
                return None
            f = self.stack[-1]
            ren = {}
            for g in c.generators:
                for x in names(g.target):
                    ren[x] = fresh(x)
            first = c.generators[0].iter
            c.generators[0].iter = ast.Constant(0)
            c = Rename(ren).visit(copy.deepcopy(c))
            c.generators[0].iter = first
            t = fresh('acc')
            body = [ast.Expr(ast.Call(ast.Attribute(N(t), 'append', ast.Load()), [c.elt], []))]
            for g in reversed(c.generators):
                for i in reversed(g.ifs):
                    body = [ast.If(i, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            s.value = N(t)
            return [ast.Assign([N(t, 1)], ast.List([], ast.Load()))] + body + [s]
class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m
    def visit_Name(self, n):
        return ast.Name(self.m.get(n.id, n.id), n.ctx)
    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name in self.m:
            n.name = self.m[n.name]
        return n
class RenameLocals(ast.NodeTransformer):
    """locals that are not parameters, in functions without nested functions, lambdas, global, nonlocal"""
    def visit_FunctionDef(self, f):
        if any(isinstance(x, (ast.FunctionDef, ast.Global, ast.Nonlocal, ast.ClassDef)) for s in f.body for x in ast.walk(s)):
            self.generic_visit(f)
            return f
        if any(isinstance(x, ast.Name) and x.id in ('locals', 'vars') for s in f.body for x in ast.walk(s)):
            return f
        pars = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)} | {a.arg for s in f.body for l in ast.walk(s) if isinstance(l, ast.Lambda) for a in ast.walk(l.args) if isinstance(a, ast.arg)}
        loc = {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - pars
        loc |= {x.name for s in f.body for x in ast.walk(s) if isinstance(x, ast.ExceptHandler) and x.name}
        r = Rename({x: x + '_r' for x in loc})
        f.body = [r.visit(s) for s in f.body]
        return f
class WhileFor(InFunc):
    """for i in range(a, b): body -> i counted in a while loop (no continue in the body, i not assigned)"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' \
                and len(s.iter.args) <= 2 and not has_continue(s.body) and s.target.id not in names(ast.Module(s.body, []), ast.Store):
            if any(isinstance(x, (ast.Yield, ast.Lambda)) for b in s.body for x in ast.walk(b)):
                return None
            i, end = fresh('k'), fresh('end')
            a = s.iter.args if len(s.iter.args) == 2 else [ast.Constant(0), s.iter.args[0]]
            return [ast.Assign([N(i, 1)], a[0]), ast.Assign([N(end, 1)], a[1]),
                    ast.While(ast.Compare(N(i), [ast.Lt()], [N(end)]), [ast.Assign([N(s.target.id, 1)], N(i))] + s.body + [ast.AugAssign(N(i, 1), ast.Add(), ast.Constant(1))], [])]
def has_continue(body):
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Continue):
                return True
    return False
class WhileTrue(InFunc):
    """while c: body -> while True: if not c: break; body"""
    def stmt(self, s):
        if isinstance(s, ast.While) and not s.orelse and not (isinstance(s.test, ast.Constant)):
            return [ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body, [])]
class ContinueNest(InFunc):
    """if c: continue; rest -> if not c: rest"""
    def stmt(self, s):
        if isinstance(s, (ast.For, ast.While)):
            s.body = self.nest(s.body)
    def nest(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and b[i + 1:]:
                return b[:i] + [ast.If(ast.UnaryOp(ast.Not(), s.test), self.nest(b[i + 1:]), [])]
        return b
class NestContinue(InFunc):
    """a loop body ending in an if without else -> if not c: continue"""
    def stmt(self, s):
        if isinstance(s, (ast.For, ast.While)) and isinstance(s.body[-1], ast.If) and not s.body[-1].orelse:
            l = s.body[-1]
            s.body = s.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), l.test), [ast.Continue()], [])] + l.body
class TupleSplit(InFunc):
    """a, b = x, y -> through temporaries;   for a, b in xs -> for ab in xs: a, b = ab"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts) \
                and not any(isinstance(x, ast.Starred) for x in s.value.elts + s.targets[0].elts):
            ts = [fresh('t') for _ in s.value.elts]
            return [ast.Assign([N(t, 1)], v) for t, v in zip(ts, s.value.elts)] + [ast.Assign([x], N(t)) for t, x in zip(ts, s.targets[0].elts)]
        if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple):
            t = fresh('item')
            s.body = [ast.Assign([s.target], N(t))] + s.body
            s.target = N(t, 1)
class Enumerate(InFunc):
    """for x in xs -> for i, x in enumerate(xs);  for i, x in enumerate(xs) -> counter"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'enumerate' and len(s.iter.args) == 1 and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                c = fresh('count')
                s.iter = s.iter.args[0]
                i, s.target = s.target.elts
                s.body = [ast.Assign([i], N(c)), ast.AugAssign(N(c, 1), ast.Add(), ast.Constant(1))] + s.body
                return [ast.Assign([N(c, 1)], ast.Constant(0)), s]
            s.target = ast.Tuple([N(fresh('_i'), 1), s.target], ast.Store())
            s.iter = ast.Call(N('enumerate'), [s.iter], [])
def simple_iter(e):
    return isinstance(e, (ast.Name, ast.Attribute)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'sorted')
class Index(InFunc):
    """for x in xs -> seq = list(xs); for i in range(len(seq)): x = seq[i] (xs a name or an attribute: a list here)"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and simple_iter(s.iter):
            l, i = fresh('seq'), fresh('i')
            s.body = [ast.Assign([s.target], ast.Subscript(N(l), N(i), ast.Load()))] + s.body
            v = s.iter if isinstance(s.iter, ast.Call) else ast.Call(N('list'), [s.iter], [])
            s.target, s.iter = N(i, 1), ast.Call(N('range'), [ast.Call(N('len'), [N(l)], [])], [])
            return [ast.Assign([N(l, 1)], v), s]
class WhileIndex(InFunc):
    """for x in xs -> seq = list(xs); i = 0; while i < len(seq): x = seq[i]; i += 1; ..."""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and simple_iter(s.iter):
            l, i = fresh('seq'), fresh('i')
            v = s.iter if isinstance(s.iter, ast.Call) else ast.Call(N('list'), [s.iter], [])
            b = [ast.Assign([s.target], ast.Subscript(N(l), N(i), ast.Load())), ast.AugAssign(N(i, 1), ast.Add(), ast.Constant(1))] + s.body
            return [ast.Assign([N(l, 1)], v), ast.Assign([N(i, 1)], ast.Constant(0)), ast.While(ast.Compare(N(i), [ast.Lt()], [ast.Call(N('len'), [N(l)], [])]), b, [])]
class RangeWhile(InFunc):
    """for i in range([a,] b) -> n = b; k = a; while k < n: i = k; k += 1; ..."""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' \
                and len(s.iter.args) in (1, 2) and not isinstance(s.iter.args[0], ast.Starred):
            a = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
            k, n = fresh('k'), fresh('n')
            b = [ast.Assign([s.target], N(k)), ast.AugAssign(N(k, 1), ast.Add(), ast.Constant(1))] + s.body
            return [ast.Assign([N(k, 1)], a), ast.Assign([N(n, 1)], s.iter.args[-1]), ast.While(ast.Compare(N(k), [ast.Lt()], [N(n)]), b, [])]
class Iter(InFunc):
    """for x in xs -> it = iter(xs); for x in it"""
    def stmt(self, s):
        if isinstance(s, ast.For):
            l = fresh('it')
            v = ast.Call(N('iter'), [s.iter], [])
            s.iter = N(l)
            return [ast.Assign([N(l, 1)], v), s]
class EarlyVar(InFunc):
    """return a if c else b -> if c: return a; return b"""
    def stmt(self, s):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            return [ast.If(s.value.test, [ast.Return(s.value.body)], []), ast.Return(s.value.orelse)]
class LambdaDef(InFunc):
    """f(lambda x: e) -> def g(x): return e; f(g) (a lambda that only reads names of this function, directly in a statement)"""
    def stmt(self, s):
        if not isinstance(s, (ast.Assign, ast.Expr, ast.Return)):
            return None
        new = []
        class V(ast.NodeTransformer):
            def visit_Lambda(self, n):
                g = fresh('fn')
                new.append(ast.FunctionDef(g, n.args, [ast.Return(n.body)], [], None))
                return N(g)
            def visit_ListComp(self, n): return n
            visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_IfExp = visit_BoolOp = visit_ListComp
        s = V().visit(s)
        return new + [s] if new else None
class AnyLoop(InFunc):
    """x = any([e for v in xs]) / if any([..]): -> a loop with a flag"""
    def stmt(self, s):
        t = s.test if isinstance(s, ast.If) else s.value if isinstance(s, (ast.Return, ast.Assign)) else None
        neg = False
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            neg, t = True, t.operand
        if not (isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ('any', 'all') and len(t.args) == 1 and isinstance(t.args[0], (ast.ListComp, ast.GeneratorExp)) and len(t.args[0].generators) == 1):
            return None
        g = t.args[0].generators[0]
        allq = t.func.id == 'all'
        fl = fresh('flag')
        ren = {v: fresh(v) for v in names(g.target)}
        cond = ast.UnaryOp(ast.Not(), t.args[0].elt) if allq else t.args[0].elt
        inner = [ast.If(cond, [ast.Assign([N(fl, 1)], ast.Constant(not allq)), ast.Break()], [])]
        for c in reversed(g.ifs):
            inner = [ast.If(c, inner, [])]
        lp = ast.For(g.target, g.iter, inner, [])
        for x in ast.walk(lp.target):
            if isinstance(x, ast.Name): x.id = ren.get(x.id, x.id)
        for b in lp.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name): x.id = ren.get(x.id, x.id)
        r = ast.UnaryOp(ast.Not(), N(fl)) if neg else N(fl)
        if isinstance(s, ast.If): s.test = r
        else: s.value = r
        return [ast.Assign([N(fl, 1)], ast.Constant(allq)), lp, s]
class Format(ast.NodeTransformer):
    """'..' % (..) -> f-string, when every directive is %s or %d"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            import re
            parts = re.split(r'(%[sd])', n.left.value)
            if any('%' in p for p in parts[::2]) or any(p == '%d' for p in parts[1::2]):
                return n
            k = len(parts) // 2
            vs = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right] if k == 1 else None
            if vs is None or len(vs) != k or not isinstance(n.right, ast.Tuple):
                return n
            vals, j = [], 0
            for i, p in enumerate(parts):
                if i % 2:
                    vals.append(ast.FormattedValue(vs[j], -1, None)); j += 1
                elif p:
                    vals.append(ast.Constant(p))
            return ast.JoinedStr(vals)
        return n
class FormatCall(Format):
    """'..' % (..) -> '..'.format(..)"""
    def visit_BinOp(self, n):
        r = super().visit_BinOp(n)
        if isinstance(r, ast.JoinedStr):
            s = ''.join(v.value.replace('{', '{{').replace('}', '}}') if isinstance(v, ast.Constant) else '{}' for v in r.values)
            return ast.Call(ast.Attribute(ast.Constant(s), 'format', ast.Load()), [v.value for v in r.values if not isinstance(v, ast.Constant)], [])
        return r
class Helper(ast.NodeTransformer):
    """assigned, returned, tested expressions of a function moved into a module-level helper taking the locals they use"""
    what = (ast.Assign, ast.Return, ast.If)
    def __init__(self):
        self.fs, self.new = [], []
    def visit_FunctionDef(self, f):
        if any(isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Nonlocal)) for s in f.body for x in ast.walk(s)):
            return f
        self.fs.append(locals_of(f))
        if any(isinstance(x, ast.Global) for s in f.body for x in ast.walk(s)):
            self.fs.pop()
            return f
        f.body = [self.visit(s) for s in f.body]
        self.fs.pop()
        return f
    def extract(self, e):
        if not self.fs or isinstance(e, (ast.Name, ast.Constant)) or any(isinstance(x, (ast.Lambda, ast.Yield, ast.YieldFrom, ast.NamedExpr)) or isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(e)):
            return e
        if any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__') for x in ast.walk(e)):
            return e
        bound = {x for g in ast.walk(e) if isinstance(g, ast.comprehension) for x in names(g.target)}
        if bound & self.fs[-1] & names(e, ast.Load) and False:
            return e
        use = sorted((names(e, ast.Load) & self.fs[-1]) - bound)
        h = fresh('_helper')
        self.new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in use], None, [], [], None, []), [ast.Return(e)], [], None))
        return ast.Call(N(h), [N(a) for a in use], [])
    def visit_Assign(self, s):
        s.value = self.extract(s.value)
        return s
    def visit_Return(self, s):
        if s.value is not None:
            s.value = self.extract(s.value)
        return s
    def visit_If(self, s):
        s.test = self.extract(s.test)
        self.generic_visit(s)
        return s
    def visit_Module(self, m):
        self.generic_visit(m)
        i = max([j for j, s in enumerate(m.body) if isinstance(s, (ast.Import, ast.ImportFrom))] or [0]) + 1
        # after the imports: everything else is looked up when called
        m.body = m.body[:i] + self.new + m.body[i:]
        return m
class LoopHelper(InFunc):
    """the body of a for loop moved into a nested function (no control flow out of it, no assignment used outside)"""
    def stmt(self, s):
        if not isinstance(s, ast.For) or len(self.stack) != 1:
            return None
        f = self.stack[-1]
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.Lambda, ast.FunctionDef, ast.Global, ast.ExceptHandler)):
                    return None
                if isinstance(x, ast.Name) and x.id == 'super':
                    return None
        body = ast.Module(s.body, [])
        st = names(body, ast.Store)
        rest = [x for q in f.body for x in ast.walk(q)]
        outside = {x.id for x in rest if isinstance(x, ast.Name)} if True else set()
        inside = {id(x) for b in s.body for x in ast.walk(b)}
        outside = {x.id for x in rest if isinstance(x, ast.Name) and id(x) not in inside} | names(s.target)
        if st & (outside - names(s.iter)) or st & names(s.iter):
            return None
        # read before written in the body: would be carried between rounds
        h = fresh('step')
        tgt = sorted(names(s.target))
        for v in st:
            firsts = [x for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == v]
            if any(isinstance(x.ctx, ast.Load) and x.lineno <= min(y.lineno for y in firsts if isinstance(y.ctx, ast.Store)) for x in firsts):
                return None
        if any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) for b in s.body for x in ast.walk(b)):
            return None
        fn = ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in tgt], None, [], [], None, []), s.body, [], None)
        s.body = [ast.Expr(ast.Call(N(h), [N(a) for a in tgt], []))]
        return [fn, s]
class Noop(InFunc):
    def block(self, b, owner):
        out = []
        for s in b:
            out.append(s)
        if out and not ends(out) and isinstance(owner, (ast.FunctionDef, ast.For, ast.If, ast.While)):
            out.append(ast.Pass())
        if isinstance(owner, ast.FunctionDef):
            i = 1 if isinstance(out[0], ast.Expr) and isinstance(out[0].value, ast.Constant) else 0
            out.insert(i, ast.Assign([N(fresh('unused'), 1)], ast.Constant(None)))
        return out
class CallTemp(InFunc):
    """arguments of a call statement or assigned call put into temporaries, in order"""
    def stmt(self, s):
        c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
        if isinstance(c, ast.Call) and c.args and isinstance(c.func, (ast.Name, ast.Attribute)) and (isinstance(c.func, ast.Name) or isinstance(c.func.value, ast.Name)):
            if any(isinstance(a, ast.Starred) for a in c.args) or isinstance(c.func, ast.Name) and c.func.id == 'super':
                return None
            pre = []
            for i, a in enumerate(c.args):
                if isinstance(a, (ast.Constant, ast.Name, ast.GeneratorExp)):
                    continue
                t = fresh('arg')
                pre.append(ast.Assign([N(t, 1)], a))
                c.args[i] = N(t)
            return pre + [s] if pre else None
class SelfTemp(ast.NodeTransformer):
    """methods read through an alias of self"""
    def visit_FunctionDef(self, f):
        if f.args.args and f.args.args[0].arg == 'self' and f.name != '__init__' and not any(isinstance(x, (ast.FunctionDef,)) or isinstance(x, ast.Name) and x.id == 'super' for s in f.body for x in ast.walk(s)):
            t = fresh('me')
            r = Rename({'self': t})
            f.body = [r.visit(s) for s in f.body]
            i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
            f.body.insert(i, ast.Assign([N(t, 1)], N('self')))
        return f
class Kwargs(ast.NodeTransformer):
    """len(x) == 0 -> not x is not safe; [:] -> list(), dict/list literals -> constructors"""
    def visit_Dict(self, n):
        self.generic_visit(n)
        return ast.Call(N('dict'), [], []) if not n.keys else n
    def visit_List(self, n):
        self.generic_visit(n)
        return ast.Call(N('list'), [], []) if not n.elts and isinstance(n.ctx, ast.Load) else n
class ListLiteral(ast.NodeTransformer):
    """sum([..]), all([..]), any([..]) with a list comprehension -> generator"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('sum', 'all', 'any', 'min', 'max', 'sorted', 'tuple', 'set') and n.args and isinstance(n.args[0], ast.ListComp):
            n.args[0] = ast.GeneratorExp(n.args[0].elt, n.args[0].generators)
        return n
class MapLambda(ast.NodeTransformer):
    """[f(x) for x in xs] -> list(map(lambda x: .., xs))"""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and isinstance(n.generators[0].target, ast.Name):
            g = n.generators[0]
            lam = lambda e: ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), e)
            it = g.iter
            for i in g.ifs:
                it = ast.Call(N('filter'), [lam(i), it], [])
            return ast.Call(N('list'), [ast.Call(N('map'), [lam(n.elt), it], [])], [])
        return n
class Reorder(InFunc):
    """adjacent independent plain assignments swapped"""
    def block(self, b, owner):
        b = list(b)
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if self.plain(x) and self.plain(y) and not (self.w(x) & (self.w(y) | self.r(y))) and not (self.w(y) & self.r(x)):
                b[i], b[i + 1] = y, x
                i += 2
            else:
                i += 1
        return b
    def plain(self, s):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1):
            return False
        t = s.targets[0]
        if not (isinstance(t, ast.Name) or isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)):
            return False
        return not any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp, ast.ListComp)) for x in ast.walk(s.value))
    def w(self, s):
        t = s.targets[0]
        return {t.id} if isinstance(t, ast.Name) else {t.value.id + '.' + t.attr}
    def r(self, s):
        out = names(s.value)
        for x in ast.walk(s.value):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                out.add(x.value.id + '.' + x.attr)
        if isinstance(s.targets[0], ast.Attribute):
            out.add(s.targets[0].value.id)
        return out
class ChainSplit(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 2 and isinstance(n.comparators[0], (ast.Name, ast.Constant, ast.Attribute)):
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(copy.deepcopy(n.comparators[0]), [n.ops[1]], [n.comparators[1]])])
        return n
class IfExpStmt(InFunc):
    """x = a if c else b -> if statement"""
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            a, b = copy.copy(s), copy.copy(s)
            a.value, b.value = s.value.body, s.value.orelse
            return [ast.If(s.value.test, [a], [b])]
class StmtIfExp(InFunc):
    """if c: x = a / else: x = b -> x = a if c else b"""
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value is not None and b.value is not None:
                return [ast.Return(ast.IfExp(s.test, a.value, b.value))]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and len(a.targets) == 1 and len(b.targets) == 1 and ast.dump(a.targets[0]) == ast.dump(b.targets[0]):
                return [ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))]
class GenLoop(InFunc):
    """yield from xs -> for x in xs: yield x"""
    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
            t = fresh('x')
            return [ast.For(N(t, 1), s.value.value, [ast.Expr(ast.Yield(N(t)))], [])]
class Constants(ast.NodeTransformer):
    """string constants of functions moved to module constants"""
    def __init__(self):
        self.new, self.inf = {}, 0
    def visit_FunctionDef(self, f):
        self.inf += 1
        f.body = [s if i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) else self.visit(s) for i, s in enumerate(f.body)]
        self.inf -= 1
        return f
    def visit_JoinedStr(self, n):
        return n
    def visit_Constant(self, n):
        if self.inf and isinstance(n.value, str) and n.value:
            if n.value not in self.new:
                self.new[n.value] = fresh('TEXT')
            return N(self.new[n.value])
        return n
    def visit_Module(self, m):
        self.generic_visit(m)
        i = max([j for j, s in enumerate(m.body) if isinstance(s, (ast.Import, ast.ImportFrom))] or [-1]) + 1
        m.body = m.body[:i] + [ast.Assign([N(v, 1)], ast.Constant(k)) for k, v in self.new.items()] + m.body[i:]
        return m
class MethodHelper(ast.NodeTransformer):
    """every plain method's body moved to a second method it delegates to"""
    def visit_ClassDef(self, c):
        new = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].arg == 'self' and not f.decorator_list and not f.name.startswith('__') \
                    and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs and not any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(f)):
                h = fresh('_do_' + f.name.strip('_'))
                g = ast.FunctionDef(h, ast.arguments([], [ast.arg(a.arg) for a in f.args.args], None, [], [], None, []), f.body, [], None)
                gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in f.body for x in ast.walk(s))
                f.body = [ast.Return(ast.Call(ast.Attribute(N('self'), h, ast.Load()), [N(a.arg) for a in f.args.args[1:]], []))]
                new.append(g)
        c.body += new
        return c

REWRITES = {k.lower(): v for k, v in list(globals().items()) if isinstance(v, type) and issubclass(v, ast.NodeTransformer) and k not in ('Blocks', 'InFunc', 'Rename', 'NodeTransformer')}

def only(tr, funcs):
    """apply tr only in the named functions"""
    class O(ast.NodeTransformer):
        def visit_FunctionDef(self, f):
            if f.name in funcs:
                m = ast.Module([f], [])
                m = tr.visit(m)
                return m.body if len(m.body) > 1 else m.body[0]
            return self.generic_visit(f)
    return O()

def rewrite(src, name, funcs=None):
    t = ast.parse(src)
    tr = REWRITES[name]()
    t = only(tr, funcs).visit(t) if funcs else tr.visit(t)
    ast.fix_missing_locations(t)
    return ast.unparse(t) + '\n'

def main(argv):
    opt = {'--checks': None, '--files': None, '--funcs': None, '--keep': None, '--jobs': '8'}
    tests = '--tests' in argv
    argv = [a for a in argv if a != '--tests']
    args, i = [], 0
    while i < len(argv):
        if argv[i] in opt:
            opt[argv[i]] = argv[i + 1]
            i += 1
        else:
            args.append(argv[i])
        i += 1
    todo = sorted(REWRITES) if args == ['all'] else args
    checks = opt['--checks'].split(',') if opt['--checks'] else sorted(os.path.basename(f)[:-3].upper() for f in glob.glob('/verif/checks/c[0-9]*.py'))
    for nm in todo:
        top = tempfile.mkdtemp(prefix='refac')
        d = opt['--keep'] or top + '/repo'
        try:
            if os.path.exists(d):
                shutil.rmtree(d)
            shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('__pycache__', '*.pyc', '.git'))
            n = 0
            for f in sorted(glob.glob(d + '/*.py')):
                b = os.path.basename(f)
                if opt['--files'] and b not in opt['--files'].split(',') or 'test' in b:
                    continue
                src = open(f).read()
                out, base = src, ast.unparse(ast.parse(src)) + '\n'
                for k in nm.split(','):
                    out = rewrite(out, k, opt['--funcs'].split(',') if opt['--funcs'] else None)
                compile(out, f, 'exec')
                if out != base:
                    n += 1
                    open(f, 'w').write(out)
            msg = ''
            if tests:
                for s in ('build.sh', 'test.sh'):
                    t = open('/opt/vp/' + s).read().replace('/repo', d).replace('unset PYTHONPATH', 'export PYTHONPATH=' + d)
                    open(top + '/' + s, 'w').write(t)
                subprocess.run(['bash', top + '/build.sh'], cwd=d, capture_output=True)
                subprocess.run(['bash', top + '/test.sh', top + '/o.json'], cwd=d, capture_output=True)
                o = json.load(open(top + '/o.json'))
                miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in o['passed']]
                msg = 'tests missing %s' % miss
            def one(c):
                t = time.time()
                r = subprocess.run(['python3', '-W', 'ignore', '/verif/run.py', c], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=top))
                return c, r.returncode, r.stdout + r.stderr, time.time() - t
            print('== %s: %d files rewritten, %s' % (nm, n, msg), flush=True)
            tot = und = 0
            with ThreadPoolExecutor(int(opt['--jobs'])) as ex:
                for c, rc, out, dt in ex.map(one, checks):
                    last = out.strip().splitlines()[-1] if out.strip() else ''
                    if rc or ' 0 undecided' not in last or dt > 300:
                        print('   %s rc=%d %.0f s %s' % (c, rc, dt, last[:150]))
                        for l in out.splitlines():
                            if 'VIOLATION' in l:
                                print('      ' + l[:300])
                    sys.stdout.flush()
        finally:
            shutil.rmtree(top)

if __name__ == '__main__':
    main(sys.argv[1:])
