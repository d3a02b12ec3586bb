#!/usr/bin/env python3
"""automut.py [--files a.py,b.py] [--funcs f,g] [--jobs N] [--sample K] [--out LOG]
Measure the checks: mutate the source one operator, constant, condition, statement or argument at a time in scratch copies (sources only), and run the checks
whose evidence lists the mutated function, cheapest first, until one reports a violation.  Prints each mutant no check reports, for a person to judge
(equivalent, or a gap).  Nothing of /repo is executed."""
import warnings; warnings.simplefilter('ignore')
import ast, copy, glob, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]
def opt(n, d=None):
    return args[args.index(n) + 1] if n in args else d
files = opt('--files'); funcs = opt('--funcs'); jobs = int(opt('--jobs', '7')); sample = int(opt('--sample', '0')); out = opt('--out', '/dev/stdout')
SKIP = {'gen_errors_for_nips.py'}
cover, cost = {}, {}
for f in glob.glob('/verif/evidence/C*.json'):
    d = json.load(open(f))
    for x in d['coverage']['functions_analysed']:
        pos = x.split(' ')[0]
        cover.setdefault(pos, set()).add(d['property'])
    cost[d['property']] = d.get('wall_s', d.get('duration_s', 10))
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.FloorDiv: [ast.Div], ast.BitXor: [ast.BitAnd]}
def variants(n, parent):
    """replacement nodes of n"""
    def c(**kw):
        m = copy.copy(n)
        for k, v in kw.items():
            setattr(m, k, v)
        return m
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            yield c(value=not n.value)
        elif isinstance(n.value, int):
            yield c(value=n.value + 1)
            if n.value > 0:
                yield c(value=n.value - 1)
        elif n.value is None and not isinstance(parent, (ast.Return,)):
            yield c(value=0)
    elif isinstance(n, ast.Compare):
        for i, o in enumerate(n.ops):
            for r in CMP.get(type(o), []):
                yield c(ops=n.ops[:i] + [r()] + n.ops[i + 1:])
    elif isinstance(n, ast.BinOp):
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return
        for r in BIN.get(type(n.op), []):
            yield c(op=r())
        if isinstance(n.op, (ast.Sub, ast.Div)):
            yield c(left=n.right, right=n.left)
    elif isinstance(n, ast.BoolOp):
        yield c(op=ast.Or() if isinstance(n.op, ast.And) else ast.And())
        for i in range(len(n.values)):
            r = n.values[:i] + n.values[i + 1:]
            yield r[0] if len(r) == 1 else c(values=r)
    elif isinstance(n, ast.UnaryOp):
        yield n.operand
    elif isinstance(n, ast.IfExp):
        yield c(test=ast.UnaryOp(ast.Not(), n.test))
    elif isinstance(n, ast.Call):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
            yield c(args=[n.args[1], n.args[0]] + n.args[2:])
        for i in range(len(n.keywords)):
            if n.keywords[i].arg:
                yield c(keywords=n.keywords[:i] + n.keywords[i + 1:])
        if isinstance(n.func, ast.Name) and n.func.id in ('int', 'abs', 'list', 'tuple', 'sorted', 'dec', 'set', 'str', 'deepcopy') and len(n.args) == 1:
            yield n.args[0]
        if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all', 'min', 'max'):
            yield c(func=ast.Name({'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min'}[n.func.id], ast.Load()))
    elif isinstance(n, ast.comprehension):
        return
    elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
        for i, g in enumerate(n.generators):
            for j in range(len(g.ifs)):
                h = copy.copy(g); h.ifs = g.ifs[:j] + g.ifs[j + 1:]
                yield c(generators=n.generators[:i] + [h] + n.generators[i + 1:])
    elif isinstance(n, ast.Slice):
        for k in ('lower', 'upper', 'step'):
            if getattr(n, k) is not None:
                yield c(**{k: None})
    elif isinstance(n, ast.If):
        yield c(test=ast.UnaryOp(ast.Not(), n.test))
        if n.orelse:
            yield c(orelse=[])
    elif isinstance(n, (ast.For,)):
        yield c(iter=ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [n.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load()))
        yield c(iter=ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [n.iter], []), ast.Slice(None, ast.UnaryOp(ast.USub(), ast.Constant(1)), None), ast.Load()))
    elif isinstance(n, ast.Break):
        yield ast.Continue()
    elif isinstance(n, ast.Continue):
        yield ast.Break()
        yield ast.Pass()
    elif isinstance(n, ast.Return) and n.value is not None:
        yield c(value=None)
    elif isinstance(n, ast.Raise):
        yield ast.Pass()
    elif isinstance(n, (ast.AugAssign,)):
        yield ast.Pass()
        yield ast.Assign([n.target], n.value)
    elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
        yield ast.Pass()
    elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        if not (isinstance(n.value.func, ast.Name) and n.value.func.id == 'print'):
            yield ast.Pass()
    elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
        yield c(elts=n.elts[::-1])
def is_print(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'print'
def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    base = os.path.basename(path)
    found = []
    def visit(n, fn, parent):
        if isinstance(n, ast.FunctionDef):
            fn = (fn or []) + [n]
        if is_print(n):
            return
        if fn and hasattr(n, 'lineno') or fn and isinstance(n, ast.Slice):
            for v in variants(n, parent):
                found.append((fn, n, v))
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            visit(c, fn, n)
    visit(tree, None, None)
    class R(ast.NodeTransformer):
        def __init__(self, old, new): self.old, self.new = old, new
        def visit(self, x):
            return self.new if x is self.old else self.generic_visit(x)
    plain = ast.unparse(tree).splitlines()
    for fn, old, new in found:
        t = ast.fix_missing_locations(rep(tree, old, new))
        lines = ast.unparse(t)
        new_l = lines.splitlines()
        import difflib
        df = [l for l in difflib.unified_diff(plain, new_l, n=0, lineterm='') if l[:3] not in ('---', '+++', '@@ ') and not l.startswith('@@')]
        pos = ['%s:%d' % (base, f.lineno) for f in fn]
        yield base, fn[-1].name, getattr(old, 'lineno', 0), pos, lines, df
def rep(tree, old, new):
    if tree is old:
        return new
    if not isinstance(tree, ast.AST):
        return tree
    m = None
    for k, v in ast.iter_fields(tree):
        if isinstance(v, list):
            w = [rep(x, old, new) if isinstance(x, ast.AST) else x for x in v]
            ch = any(a is not b for a, b in zip(v, w))
        elif isinstance(v, ast.AST):
            w = rep(v, old, new); ch = w is not v
        else:
            continue
        if ch:
            m = m or copy.copy(tree)
            setattr(m, k, w)
    return m or tree
def one(mu):
    base, fname, line, pos, text, df = mu
    cks = set()
    for p in pos:
        cks |= cover.get(p, set())
    for p in (p for p in cover if False):
        pass
    d = tempfile.mkdtemp(prefix='amut')
    res = []
    try:
        for p in glob.glob('/repo/*.py'):
            shutil.copy(p, d)
        open(d + '/' + base, 'w').write(text)
        try:
            compile(text, base, 'exec')
        except SyntaxError:
            return mu, 'invalid', []
        for c in sorted(cks, key=lambda c: cost.get(c, 9)):
            try:
                r = subprocess.run([sys.executable, '-W', 'ignore', '/verif/run.py', c], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d), capture_output=True, text=True, timeout=400)
                o = r.stdout + r.stderr
            except subprocess.TimeoutExpired:
                res.append(c + ':timeout'); continue
            if r.returncode == 1 and 'VIOLATION property=' in o:
                return mu, 'caught', [c]
            u = o.rsplit(' undecided', 1)[0].rsplit(' ', 1)[-1] if ' undecided' in o else '?'
            res.append('%s%s' % (c, '' if r.returncode == 0 and u == '0' else ':und%s' % u if r.returncode == 0 else ':rc%d' % r.returncode))
        return mu, 'missed', res
    finally:
        shutil.rmtree(d)
todo = []
for p in sorted(glob.glob('/repo/*.py')):
    b = os.path.basename(p)
    if b in SKIP or files and b not in files.split(','):
        continue
    for m in mutants(p):
        if not funcs or m[1] in funcs.split(','):
            todo.append(m)
if sample and sample < len(todo):
    random.seed(int(os.environ.get('SEED', '1')))
    todo = random.sample(todo, sample)
with open(out, 'a') as fo:
    print('%d mutants' % len(todo), file=fo, flush=True)
    n = dict(caught=0, missed=0, invalid=0)
    with ThreadPoolExecutor(jobs) as ex:
        for mu, r, c in ex.map(one, todo):
            n[r] += 1
            if r == 'missed':
                print('%s:%d %s [%s]\n    %s' % (mu[0], mu[2], mu[1], ' '.join(c), '\n    '.join(x[:200] for x in mu[5][:8])), file=fo, flush=True)
            elif os.environ.get('V'):
                print('%s:%d %s %s %s' % (mu[0], mu[2], mu[1], r, c), file=fo, flush=True)
    print('caught %(caught)d, not reported %(missed)d, invalid %(invalid)d' % n, file=fo, flush=True)
