"""Gated value-flow analysis of Python source (AST level).

One pass over each function: both branches of every `if` are analysed and merged into gated values (a gated-SSA /
global-value-numbering construction), loops are closed into comprehension, sum, existence, first-index or fold
binders by recognising the recurrence of every location the body writes, repository calls are inlined, library calls
become uninterpreted functions with a small algebra.  No path is enumerated, nothing is executed, no solver is asked."""
import ast, os, builtins as _pyb
from fractions import Fraction
from . import terms as tm
from .terms import *
from .terms import _intern, _lt, Unsupported

UNROLL = 64
INT_EXC = {
    'BaseException': None, 'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'LookupError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError', 'ValueError': 'Exception',
    'TypeError': 'Exception', 'AttributeError': 'Exception', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'StopIteration': 'Exception', 'OSError': 'Exception', 'IOError': 'OSError', 'FileExistsError': 'OSError',
    'FileNotFoundError': 'OSError', 'AssertionError': 'Exception', 'NameError': 'Exception', 'ImportError': 'Exception',
    'json.JSONDecodeError': 'ValueError', 'EOFError': 'Exception', 'UnicodeDecodeError': 'ValueError',
    'GeneratorExit': 'BaseException', 'MemoryError': 'Exception', 'RecursionError': 'RuntimeError'}

# ---------------------------------------------------------------- extra leaf terms
N = _intern('ctl', ('n', None))
BRK = _intern('ctl', ('brk', None))
CONT = _intern('ctl', ('cont', None))
def ctl_ret(v):
    return lift(lambda x: _intern('ctl', ('ret', x), (x,)), v)
def ctl_raise(v):
    return lift(lambda x: _intern('ctl', ('raise', x), (x,)), v)
def _rb_ctl(t, S):
    k, v = t.args
    if v is None:
        return t
    return ctl_ret(S(v)) if k == 'ret' else ctl_raise(S(v))
tm.REBUILD['ctl'] = _rb_ctl

def live_of(ctl):
    if ctl is N:
        return TRUE
    return cond_of(ctl, lambda x: x is N)

def inst_term(cls, fields):
    """frozen instance: class term + fields"""
    names = tuple(sorted(fields))
    vals = [fields[n] for n in names]
    n = 1
    for v in vals:
        if v.op == 'n':
            n *= len(leaves(v))
    def mk(*vs):
        return _intern('inst', (cls, names, tuple(vs)), tuple(vs))
    return mk(*vals)
def _rb_inst(t, S):
    cls, names, vals = t.args
    return inst_term(cls, dict(zip(names, [S(v) for v in vals])))
tm.REBUILD['inst'] = _rb_inst

def bi(name):
    return _intern('bi', (name,))

class FuncVal:
    def __init__(self, node, frame, module, qual, defaults, kwdefaults, cls, path):
        self.node, self.frame, self.module, self.qual = node, frame, module, qual
        self.defaults, self.kwdefaults, self.cls, self.path = defaults, kwdefaults, cls, path
        body = node.body if not isinstance(node, ast.Lambda) else []
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for s in body for n in _walk_fn(s))
        self.locals = None
        self.captures = any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for s in
                            (body if body else [node.body]) for n in ast.walk(s))
        self.name = getattr(node, 'name', '<lambda>')

class Wrapper:
    """staticmethod / classmethod / property"""
    def __init__(self, kind, fn, setter=None):
        self.kind, self.fn, self.setter = kind, fn, setter

class ClassVal:
    def __init__(self, name, module, bases, frame, meta, node):
        self.name, self.module, self.bases, self.frame, self.meta, self.node = name, module, bases, frame, meta, node
        self.qual = (module + '.' if module else '') + name

class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

class SuperObj:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

_objs = {}
_objkey = {}
def regobj(op, obj, key=None):
    """op in fn, cls, mod, wrap, super, bm"""
    if key is not None and (op, key) in _objkey:
        return _objkey[(op, key)]
    n = len(_objs) + 1
    _objs[n] = obj
    t = _intern(op, (n,))
    if key is not None:
        _objkey[(op, key)] = t
    return t
def obj(t):
    return _objs[t.args[0]]

_refs = {}
def new_ref(kind_, cls=None, name=None, lazy=None):
    n = len(_refs) + 1
    t = _intern('ref', (n,))
    t.fv = frozenset([t])
    _refs[t] = RefInfo(kind_, cls, name, lazy)
    return t

class RefInfo:
    def __init__(self, kind_, cls, name, lazy):
        self.kind, self.cls, self.name, self.lazy = kind_, cls, name, lazy
        self.parent = None          # frames
        self.is_class = False
        self.locals = None
        self.fn = None
        self.default = None         # factory of the missing values of a dictionary

def _walk_fn(node):
    """walk without entering nested functions/lambdas/classes"""
    yield node
    if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        return
    for c in ast.iter_child_nodes(node):
        yield from _walk_fn(c)

class State:
    __slots__ = ('heap', 'ctl', 'pc')
    def __init__(self, heap, ctl, pc):
        self.heap, self.ctl, self.pc = heap, ctl, pc

WORLD = new_ref('world', None, 'world')
OST = new_ref('ost', None, 'ostate')

class Interp:
    def __init__(self, root):
        self.root = root
        self.st = State({WORLD: {}, OST: {}}, N, TRUE)
        self.modules = {}
        self.wlog = []
        self.frame = None
        self.fnstack = []
        self.argstack = []
        self.handlers = []
        self.boundary = {}
        self.events_on = set()
        self.origin = {}
        self.touched = set()        # external functions without a model that were handed a mutable object
        self.analysed = {}          # qual -> (path, line)
        self.nbranch = self.nloop = self.ncall = 0
        self.loopdepth = 0
        self.assume_mpf = False     # numbers of unknown representation are mpmath numbers
        self.meth_stubs = {}        # method name -> python callable(interp, receiver, args, kwargs), on values
        self.stubs = {}             # dotted external name -> python callable(interp, args, kwargs)
        self._mut = None
        self.classes = {}
        self.sources = {}
        self.exc_stack = []
        self.reference_mode = False
        self.unsupported_ok = True
        self._depth = 0
        from . import models
        self.models = models
        self.refpath = None

    # ------------------------------------------------------------ state
    def live(self):
        l = live_of(self.st.ctl)
        if l.op == 'n' and self.st.pc is not TRUE:
            l = under(l, self.st.pc)
        return l

    def rd(self, ref, field, default=None):
        o = self.st.heap.get(ref)
        v = o.get(field) if o is not None else None
        if v is None:
            return default
        if v.op == 'n' and self.st.pc is not TRUE:
            v = under(v, self.st.pc)
        return v

    def wr(self, ref, field, v):
        st = self.st
        l = self.live()
        if l is FALSE:
            return
        o = st.heap.get(ref)
        if o is None:
            o = {}
        if l is not TRUE:
            old = o.get(field)
            if old is None:
                old = self.lazy_default(ref, field)
            v = ite(l, v, old)
        for s in self.wlog:
            s.add((ref, field))
        o = dict(o)
        o[field] = v
        st.heap[ref] = o

    def lazy_default(self, ref, field):
        info = _refs.get(ref)
        if info is not None and info.lazy is not None:
            return info.lazy(field)
        if ref is OST:
            return rawapp('v0', field)
        return UNDEF

    def fork(self, cond):
        st = self.st
        pc = b_and(st.pc, cond)
        ctl = st.ctl
        if ctl is not N:
            ctl = under(ctl, pc)
        return State(dict(st.heap), ctl, pc)

    def merge(self, cond, sa, sb, pc):
        heap = {}
        ha, hb = sa.heap, sb.heap
        for r, oa in ha.items():
            ob = hb.get(r)
            if ob is oa or ob is None:
                heap[r] = oa
                continue
            o = {}
            for f, va in oa.items():
                vb = ob.get(f)
                if vb is va:
                    o[f] = va
                else:
                    if vb is None:
                        vb = self.lazy_default(r, f)
                    o[f] = va if va is vb else ite(cond, va, vb)
            for f, vb in ob.items():
                if f not in oa:
                    va = self.lazy_default(r, f)
                    o[f] = va if va is vb else ite(cond, va, vb)
            heap[r] = o
        for r, ob in hb.items():
            if r not in ha:
                heap[r] = ob
        return State(heap, ite(cond, sa.ctl, sb.ctl), pc)

    def branch(self, cond, fa, fb=lambda: BOT):
        cond = under(cond, self.st.pc) if self.st.pc is not TRUE else cond
        if cond is BOT:
            self.st.ctl = lift(lambda c: ctl_raise(rawapp('exc', K('Undefined'))) if c is N else c, self.st.ctl)
            return BOT
        if cond is TRUE:
            return fa()
        if cond is FALSE:
            return fb()
        if any(l is BOT for l in leaves(cond)):
            cond = ite(cond_of(cond, lambda x: x is BOT), FALSE, cond)
            return self.branch(cond, fa, fb)
        st0 = self.st
        pc0 = st0.pc
        self.nbranch += 1
        self.st = self.fork(cond)
        sa_dead = self.st.pc is FALSE
        ra = fa() if not sa_dead else BOT
        sa = self.st
        self.st = st0
        self.st = self.fork(b_not(cond))
        sb_dead = self.st.pc is FALSE
        rb = fb() if not sb_dead else BOT
        sb = self.st
        if sa_dead:
            self.st = State(sb.heap, sb.ctl, pc0)
            return rb
        if sb_dead:
            self.st = State(sa.heap, sa.ctl, pc0)
            return ra
        self.st = self.merge(cond, sa, sb, pc0)
        if ra is rb:
            return ra
        if ra is None or rb is None:
            return None if (ra or BOT) is BOT and (rb or BOT) is BOT else ite(cond, ra or BOT, rb or BOT)
        return ite(cond, ra, rb)

    def each_leaf(self, t, f):
        """run f on every leaf of t, under the leaf's condition"""
        if t.op != 'n':
            return f(t)
        if self.st.pc is not TRUE:
            t = under(t, self.st.pc)
            if t.op != 'n':
                return f(t)
        ls = [l for l in leaves(t) if l is not BOT]
        if not ls:
            return f(BOT)
        def rec(i):
            if i == len(ls) - 1:
                return f(ls[i])
            c = cond_of(t, lambda x: x is ls[i])
            if c is TRUE:
                return f(ls[i])
            return self.branch(c, lambda: f(ls[i]), lambda: rec(i + 1))
        return rec(0)

    def raise_(self, exc):
        l = self.live()
        self.st.ctl = ite(l, ctl_raise(exc), self.st.ctl)

    def raise_if(self, cond, name, *args):
        if cond is FALSE:
            return
        e = rawapp('exc', K(name), *args)
        l = b_and(self.live(), cond)
        if l is not FALSE:
            self.st.ctl = ite(l, ctl_raise(e), self.st.ctl)

    def may_raise(self, term):
        """an opaque call inside try: it raises what an active handler waits for, or not"""
        seen = set()
        for names in self.handlers:
            for nm in names:
                if nm in seen:
                    continue
                seen.add(nm)
                if nm in ('KeyboardInterrupt', 'SystemExit', 'GeneratorExit'):
                    continue        # not raised by an operation itself
                def f(x):
                    if x is BOT or x is UNDEF or x.op == 'k':
                        return FALSE        # folded: the operation is defined on these operands
                    if x.op == 'a' and x.args[0] in ('nstr', 'nint', 'floor', 'ceil') and nm in ('KeyError', 'IndexError', 'LookupError', 'ZeroDivisionError'):
                        return FALSE
                    return batom(rawapp('raises', K(nm), x))
                c = lift(f, term)
                self.raise_if(c, nm, term)

    # ------------------------------------------------------------ effects
    def event(self, channel, *args):
        v = self.rd(WORLD, channel)
        if v is None:
            v = mk_seq('list', [])
        args = [self.freeze(a) for a in args]
        self.wr(WORLD, channel, seq_concat('list', v, mk_seq('list', [unit(tup(*args))])))

    def channel(self, channel):
        return self.rd(WORLD, channel, mk_seq('list', []))

    # ------------------------------------------------------------ heap objects
    def new_list(self, seq):
        r = new_ref('list')
        self.st.heap[r] = {'$seq': seq_retype(seq, 'list')}
        return r

    def new_dict(self, m):
        r = new_ref('dict')
        self.st.heap[r] = {'$map': m}
        return r

    def new_set(self, seq):
        r = new_ref('set')
        self.st.heap[r] = {'$set': seq}
        return r

    def sym_object(self, cls, name, shapes=None, fields=None):
        """a symbolic instance of a repository class; unknown fields are symbols named after the field"""
        shapes = shapes or {}
        def lazy(f):
            return sym(name + '.' + f, shapes.get(f, '?'))
        r = new_ref('inst', cls, name, lazy)
        self.st.heap[r] = dict(fields or {})
        return r

    def freeze(self, t, only=None):
        """structural value of t: heap references replaced by their contents"""
        return self._freeze(t, only, {}, set())

    def _freeze(self, t, only, memo, busy):
        ost = self.st.heap[OST]
        rs = [r for r in t.fv if r.op == 'ref' and (only is None or r in only)]
        if rs:
            m = {}
            for r in rs:
                if r in memo:
                    m[r] = memo[r]
                    continue
                if r in busy:
                    m[r] = rawapp('cyclic')
                    continue
                busy.add(r)
                m[r] = memo[r] = self._freeze_ref(r, only, memo, busy)
                busy.discard(r)
            t = subst(t, m)
        if ost:
            vers = {o: v for o, v in ost.items() if not isinstance(o, str)}
            if vers:
                t = replace_objs(t, vers)
        return t

    def _freeze_ref(self, r, only, memo, busy):
        info = _refs[r]
        o = self.st.heap.get(r)
        if o is None:
            return rawapp('lost')
        if info.kind == 'list':
            return self._freeze(self.rd(r, '$seq'), only, memo, busy)
        if info.kind == 'dict' and info.cls is None:
            return self._freeze(self.rd(r, '$map'), only, memo, busy)
        if info.kind == 'set':
            return mk_set(self._freeze(self.rd(r, '$set'), only, memo, busy))
        if info.kind in ('inst', 'dict'):
            if info.lazy is not None and not o:
                return sym(info.name, ('obj', obj(info.cls).qual if info.cls is not None else '?'))
            fields = {f: self._freeze(self.rd(r, f), only, memo, busy) for f in o}
            if info.lazy is not None:
                fields['$base'] = sym(info.name, '?')
            return inst_term(info.cls, fields)
        return rawapp('ref:' + info.kind)

    # ------------------------------------------------------------ modules and names
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.root, name + '.py')
        with open(path, encoding='utf-8') as f:
            src = f.read()
        return self.load_source(name, src, path)

    def load_source(self, name, src, path):
        tree = ast.parse(src, path)
        fr = new_ref('frame', None, name)
        info = _refs[fr]
        info.locals = None
        info.modpath = path
        info.modname = name
        self.st.heap[fr] = {'__name__': K(name)}
        self.modules[name] = fr
        self.sources[name] = (src, tree, path)
        old = self.frame, self.fnstack
        self.frame = fr
        self.fnstack = []
        self.exec_block(tree.body)
        if self.st.ctl is not N:
            bad = self.st.ctl
            self.st.ctl = N
            raise Unsupported('module %s may not finish loading: %s' % (name, show(bad, 5)))
        self.frame, self.fnstack = old
        return fr

    def module_of(self, frame):
        while _refs[frame].parent is not None:
            frame = _refs[frame].parent
        return frame

    def lookup(self, name, node=None):
        fr = self.frame
        while fr is not None:
            info = _refs[fr]
            v = self.rd(fr, name)
            if v is not None and not (info.is_class and fr is not self.frame):
                if v is not UNDEF:
                    return v
                if info.parent is not None and info.locals is not None and name in info.locals:
                    return v
            fr = info.parent
        if hasattr(_pyb, name) or name in INT_EXC:
            return bi(name)
        if name == '__file__':
            return K(name)
        return UNDEF

    def scope_frame(self, name):
        """frame that a store to name goes to"""
        info = _refs[self.frame]
        if info.fn is not None:
            if name in info.globals:
                return self.module_of(self.frame)
            if name in info.nonlocals:
                fr = info.parent
                while fr is not None:
                    if name in self.st.heap.get(fr, {}):
                        return fr
                    fr = _refs[fr].parent
        return self.frame

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for i, s in enumerate(stmts):
            l = self.live()
            if l is FALSE:
                return
            if l is not TRUE:
                rest = stmts[i:]
                self.branch(l, lambda: self.exec_block(rest))
                return
            self.exec_stmt(s)

    def setloc(self, node):
        if self.reference_mode:
            tm.CUR_LOC[0] = None
        elif hasattr(node, 'lineno'):
            fn = self.fnstack[-1].qual if self.fnstack else '<module>'
            path = self.fnstack[-1].path if self.fnstack else '?'
            tm.CUR_LOC[0] = (path, node.lineno, fn)

    def exec_stmt(self, s):
        self.setloc(s)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %d' % (type(s).__name__, s.lineno))
        m(s)

    def s_Pass(self, s):
        pass
    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)
    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)
    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))
    def s_AugAssign(self, s):
        if isinstance(s.target, ast.Name):
            get = lambda: self.ev(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target))
            put = lambda v: self.assign(s.target, v)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value)
            get = lambda: self.getattr_(o, s.target.attr)
            put = lambda v: self.setattr_(o, s.target.attr, v)
        else:
            o = self.ev(s.target.value)
            k = self.ev(s.target.slice)
            get = lambda: self.getitem(o, k)
            put = lambda v: self.setitem(o, k, v)
        cur = get()
        val = self.ev(s.value)
        if isinstance(s.op, ast.Add):
            def f(c):
                if c.op == 'ref' and _refs[c].kind == 'list':
                    self.wr(c, '$seq', seq_concat('list', self.rd(c, '$seq'), self.as_seq(val)))
                    return c
                return self.binop(s.op, c, val)
            r = self.each_leaf(cur, f)
        elif isinstance(s.op, ast.BitOr) and cur.op == 'ref' and _refs[cur].kind == 'set':
            self.wr(cur, '$set', seq_concat('list', self.rd(cur, '$set'), self.as_seq(val)))
            r = cur
        else:
            r = self.binop(s.op, cur, val)
        put(r)
    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        l = self.live()
        self.st.ctl = ite(l, ctl_ret(v), self.st.ctl) if l is not TRUE else ctl_ret(v)
    def s_Break(self, s):
        self.st.ctl = BRK
    def s_Continue(self, s):
        self.st.ctl = CONT
    def s_If(self, s):
        c = self.truth_of(self.ev(s.test))
        if self.live() is not TRUE:
            l = self.live()
            self.branch(l, lambda: self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse)))
        else:
            self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))
    def s_Global(self, s):
        pass
    s_Nonlocal = s_Global
    def s_Import(self, s):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            self.assign_name(nm, self.import_mod(full))
    def s_ImportFrom(self, s):
        mod = s.module
        if os.path.exists(os.path.join(self.root, mod + '.py')) or mod in self.modules:
            fr = self.load_in_place(mod)
            for a in s.names:
                if a.name == '*':
                    for k, v in list(self.st.heap[fr].items()):
                        if not k.startswith('_'):
                            self.assign_name(k, v)
                    continue
                v = self.rd(fr, a.name, UNDEF)
                self.assign_name(a.asname or a.name, v)
        else:
            for a in s.names:
                self.assign_name(a.asname or a.name, self.models.external(mod + '.' + a.name))
    def load_in_place(self, name):
        if name in self.modules:
            return self.modules[name]
        old, oldctl, oldpc, oldh, oldw = self.frame, self.st.ctl, self.st.pc, self.handlers, self.wlog
        self.st.ctl, self.st.pc, self.handlers, self.wlog = N, TRUE, [], []
        st = self.st
        try:
            self.load(name)
        finally:
            self.frame, self.handlers, self.wlog = old, oldh, oldw
            self.st.ctl, self.st.pc = oldctl, oldpc
        return self.modules[name]
    def import_mod(self, name):
        if name in self.modules or os.path.exists(os.path.join(self.root, name + '.py')):
            return regobj('mod', self.load_in_place(name), self.modules[name])
        return bi(self.models.canon(name))
    def s_Assert(self, s):
        c = self.truth_of(self.ev(s.test))
        self.raise_if(b_not(c), 'AssertionError')
    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.wr(self.scope_frame(t.id), t.id, UNDEF)
            elif isinstance(t, ast.Attribute):
                self.setattr_(self.ev(t.value), t.attr, UNDEF)
            else:
                self.call_method(self.ev(t.value), '__delitem__', [self.ev(t.slice)], {})
    def s_Raise(self, s):
        if s.exc is None:
            e = self.exc_stack[-1] if self.exc_stack else rawapp('exc', K('RuntimeError'))
        else:
            e = self.as_exc(self.ev(s.exc))
        self.raise_(e)
    def as_exc(self, v):
        def f(x):
            if x.op == 'bi':
                return rawapp('exc', K(x.args[0]))
            if x.op == 'cls':
                return rawapp('exc', K(obj(x).name))
            if x.op == 'ref' and _refs[x].cls is not None:
                return rawapp('exc', K(obj(_refs[x].cls).name), *([self.rd(x, '$args')] if self.rd(x, '$args') else []))
            return x
        return lift(f, v)
    def exc_names(self, node):
        """names of the classes of an except clause"""
        if node is None:
            return ['BaseException']
        v = self.ev(node)
        out = []
        def add(x):
            if x.op == 'q':
                for p in x.args[1]:
                    add(p.args[0])
            elif x.op == 'bi':
                out.append(x.args[0])
            elif x.op == 'cls':
                out.append(obj(x).name)
                self.exc_parent.setdefault(obj(x).name, [b.args[0] if b.op == 'bi' else obj(b).name for b in obj(x).bases])
            else:
                raise Unsupported('except clause')
        for l in leaves(v):
            add(l)
        return out
    exc_parent = {}
    def exc_sub(self, name, cls):
        if name == cls or cls == 'BaseException':
            return True
        if name == 'Undefined':
            return cls == 'Exception'
        p = INT_EXC.get(name)
        if p is None and name not in INT_EXC:
            ps = self.exc_parent.get(name)
            if ps is None:
                c = next((c for c in self.classes.values() if c.name == name), None)
                ps = [b.args[0] if b.op == 'bi' else obj(b).name for b in c.bases] if c else ['Exception']
            return any(self.exc_sub(x, cls) for x in ps)
        return p is not None and self.exc_sub(p, cls)
    def s_Try(self, s):
        names = [self.exc_names(h.type) for h in s.handlers]
        act = []
        for h, ns in zip(s.handlers, names):
            last = h.body[-1]
            if isinstance(last, ast.Raise):
                continue            # the exception only changes its name: nothing continues
            # library calls do not raise the exception classes that the repository itself defines
            act += [n for n in ns if n not in self.exc_parent]
        if s.handlers:
            self.handlers.append(act)
        self.exec_block(s.body)
        if s.handlers:
            self.handlers.pop()
        if s.orelse:
            l = self.live()
            if l is not FALSE:
                self.branch(l, lambda: self.exec_block(s.orelse)) if l is not TRUE else self.exec_block(s.orelse)
        done = FALSE
        todo = []
        ctl = self.st.ctl
        for h, ns in zip(s.handlers, names):
            def match(x):
                return x.op == 'ctl' and x.args[0] == 'raise' and any(self.exc_sub(self.exc_name(x.args[1]), n) for n in ns)
            c = b_and(cond_of(ctl, match), b_not(done))
            done = b_or(done, c)
            todo.append((h, c))
        for h, c in todo:
            if c is FALSE:
                continue
            exc = mapleaves(lambda x: x.args[1] if x.op == 'ctl' and x.args[0] == 'raise' else BOT, under(ctl, c))
            def run():
                self.st.ctl = N
                if h.name:
                    self.assign_name(h.name, exc)
                self.exc_stack.append(exc)
                self.exec_block(h.body)
                self.exc_stack.pop()
            self.branch(c, run)
        if s.finalbody:
            saved = self.st.ctl
            self.st.ctl = N
            self.exec_block(s.finalbody)
            l = self.live()
            self.st.ctl = ite(l, saved, self.st.ctl)
    def exc_name(self, e):
        if e.op == 'a' and e.args[0] == 'exc':
            return kval(e.args[1])
        return 'Exception'
    def s_With(self, s):
        def item(i):
            if i == len(s.items):
                return self.exec_block(s.body)
            it = s.items[i]
            cm = self.ev(it.context_expr)
            saved = self.models.cm_state(self, cm)
            v = self.models.enter(self, cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            def body():
                item(i + 1)
                ctl = self.st.ctl
                self.st.ctl = N
                raised = cond_of(ctl, lambda x: x.op == 'ctl' and x.args[0] == 'raise')
                swallow = self.models.exit(self, cm, saved, raised, ctl)
                l = self.live()
                self.st.ctl = ite(l, ite(b_and(raised, swallow), N, ctl), self.st.ctl)
            l = self.live()
            if l is TRUE:
                body()
            elif l is not FALSE:
                self.branch(l, body)
        item(0)
    def s_FunctionDef(self, s):
        v = self.make_func(s)
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d), [v], {})
        self.assign_name(s.name, v)
    def make_func(self, s, name=None):
        cls = self.cur_class if hasattr(self, 'cur_class') else None
        mod = _refs[self.module_of(self.frame)]
        a = s.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = [self.ev(d) if d is not None else None for d in a.kw_defaults]
        prefix = mod.modname
        if cls is not None and getattr(_refs[self.frame], 'is_class', False):
            qual = prefix + '.' + obj(cls).name + '.' + getattr(s, 'name', '<lambda>')
            c = cls
        else:
            c = self.fnstack[-1].cls if self.fnstack else None
            q = self.fnstack[-1].qual if self.fnstack else prefix
            qual = q + '.' + getattr(s, 'name', '<lambda>')
        fv = FuncVal(s, self.frame, mod.modname, qual, defaults, kwd, c, mod.modpath)
        fv.ref = self.reference_mode
        # a definition evaluated again in the same frame with the same defaults is the same function
        key = (id(s), self.frame, tuple(defaults), tuple(kwd))
        return regobj('fn', fv, key)
    def s_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        meta = None
        for k in s.keywords:
            if k.arg == 'metaclass':
                meta = self.ev(k.value)
        mod = _refs[self.module_of(self.frame)]
        fr = new_ref('frame', None, s.name)
        info = _refs[fr]
        info.parent = self.frame
        info.is_class = True
        self.st.heap[fr] = {}
        cv = ClassVal(s.name, mod.modname, bases, fr, meta, s)
        t = regobj('cls', cv)
        self.classes[cv.qual] = cv
        cv.term = t
        old, oldc = self.frame, getattr(self, 'cur_class', None)
        self.frame, self.cur_class = fr, t
        self.exec_block(s.body)
        self.frame, self.cur_class = old, oldc
        self.assign_name(s.name, t)

    # ------------------------------------------------------------ assignment
    def assign_name(self, name, v):
        self.wr(self.scope_frame(name), name, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                n = len(t.elts)
                s = self.as_seq(v)
                for j in range(i):
                    self.assign(t.elts[j], self.elem(s, K(j)))
                after = n - i - 1
                self.assign(t.elts[i].value, self.new_list(seq_slice(s, K(i), sub(app('len', s), K(after)) if after else NONE)))
                for j in range(after):
                    self.assign(t.elts[i + 1 + j], self.elem(s, K(j - after)))
                return
            parts = self.unpack(v, len(t.elts))
            for e, p in zip(t.elts, parts):
                self.assign(e, p)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.ev(t.slice), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        s = self.as_seq(v)
        if any(q.op == 'q' and len(q.args[1]) != n and all(p.op == 'u' for p in q.args[1]) for q in leaves(s)):
            bad = cond_of(s, lambda q: q.op == 'q' and len(q.args[1]) != n and all(p.op == 'u' for p in q.args[1]))
            self.raise_if(bad, 'ValueError', K('values to unpack'))
            if bad is TRUE:
                return [BOT] * n
            s = under(s, b_not(bad))
        return [self.elem(s, K(j)) for j in range(n)]

    def elem(self, s, i):
        return app('at', s, i)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (type(e).__name__, getattr(e, 'lineno', '?')))
        return m(e)

    def e_Constant(self, e):
        if isinstance(e.value, complex):
            return rawapp('complex', K(str(e.value)))
        return K(e.value)
    def e_Name(self, e):
        v = self.lookup(e.id)
        if v is UNDEF:
            self.raise_if(TRUE, 'NameError', K(e.id))
            return BOT
        return v
    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v
    def e_Tuple(self, e):
        return self.display('tuple', e.elts)
    def e_List(self, e):
        return self.new_list(self.display('list', e.elts))
    def e_Set(self, e):
        return self.new_set(self.display('list', e.elts))
    def display(self, stype, elts):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts.append(self.as_seq(self.ev(x.value)))
            else:
                parts.append(mk_seq(stype, [unit(self.ev(x))]))
        if not parts:
            return mk_seq(stype, [])
        return seq_concat(stype, *parts)
    def e_Dict(self, e):
        m = mk_map(None, {})
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.models.map_update(m, self.map_of(self.ev(v)))
            else:
                kk = self.ev(k)
                m = self.models.map_set(m, kk, self.ev(v))
        return self.new_dict(m)
    def e_JoinedStr(self, e):
        return strcat(*[self.ev(v) for v in e.values]) if e.values else K('')
    def e_FormattedValue(self, e):
        v = self.ev(e.value)
        spec = ''
        if e.format_spec is not None:
            s = self.ev(e.format_spec)
            if not isk(s, 'str'):
                raise Unsupported('dynamic format')
            spec = kval(s)
        if e.conversion == 114:
            return self.models.repr_(self, v)
        return self.models.format_(self, v, spec)
    def e_Attribute(self, e):
        return self.getattr_(self.ev(e.value), e.attr)
    def e_Subscript(self, e):
        o = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            a, b, c = [self.ev(x) if x is not None else NONE for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            return self.slice_(o, a, b, c)
        return self.getitem(o, self.ev(e.slice))
    def e_Slice(self, e):
        a, b, c = [self.ev(x) if x is not None else NONE for x in (e.lower, e.upper, e.step)]
        return rawapp('sliceobj', a, b, c)
    def e_Starred(self, e):
        raise Unsupported('star expression')
    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        def rec(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth_of(v)
            if isand:
                return self.branch(c, lambda: rec(i + 1), lambda: v)
            return self.branch(c, lambda: v, lambda: rec(i + 1))
        return rec(0)
    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return b_not(self.truth_of(v))
        dn = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(e.op)]
        if any(self.is_obj(x) for x in leaves(v)):
            return self.each_leaf(v, lambda x: self.unary_obj(e.op, dn, x))
        return self.unary(e.op, v)
    def unary_obj(self, op, dn, x):
        z = self.thaw(x) if x.op == 'inst' else x
        if z.op == 'ref' and _refs[z].cls is not None and self.class_attr(_refs[z].cls, dn) is not None:
            return self.call_method(z, dn, [], {})
        return self.unary(op, x)
    def unary(self, op, v):
        if isinstance(op, ast.USub):
            return self.neg_(v)
        if isinstance(op, ast.UAdd):
            return app('pos', v) if kind(v) not in NUMK else v
        return app('invert', v)
    def neg_(self, v):
        return lift(lambda x: neg(x) if not self.is_obj(x) else app('neg', self.ver(x)), v)
    def is_obj(self, x):
        return x.op in ('ref', 'inst')
    def e_IfExp(self, e):
        c = self.truth_of(self.ev(e.test))
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))
    def e_Lambda(self, e):
        return self.make_func(e)
    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(e.op, a, b)
    def binop(self, op, a, b):
        return self.models.binop(self, type(op).__name__, a, b)
    def e_Compare(self, e):
        left = self.ev(e.left)
        def rec(i, left):
            right = self.ev(e.comparators[i])
            c = self.compare(e.ops[i], left, right)
            if i == len(e.ops) - 1:
                return c
            return self.branch(self.truth_of(c), lambda: rec(i + 1, right), lambda: FALSE)
        return rec(0, left)
    def compare(self, op, a, b):
        n = type(op).__name__
        if n in ('In', 'NotIn'):
            r = self.truth_of(self.contains(b, a))
            return r if n == 'In' else b_not(r)
        if n in ('Is', 'IsNot'):
            r = lift(lambda x, y: self.models.is_(self, x, y), a, b)
            return r if n == 'Is' else b_not(r)
        if n in CMPDUNDER:
            for x, y, m in ((a, b, CMPDUNDER[n][0]), (b, a, CMPDUNDER[n][1])):
                if x.op == 'ref' and _refs[x].cls is not None and self.class_attr(_refs[x].cls, m) is not None:
                    return self.call_method(x, m, [y], {})
        a, b = self.data(a), self.data(b)
        if n == 'Eq':
            return eq(a, b)
        if n == 'NotEq':
            return b_not(eq(a, b))
        ok = self.models.type_errors(self, self.models.unordered, a, b)
        if ok is not None:
            if ok is FALSE:
                return BOT
            a, b = under(a, ok), under(b, ok)
        if n == 'Lt':
            return lt(a, b)
        if n == 'LtE':
            return le(a, b)
        if n == 'Gt':
            return lt(b, a)
        return le(b, a)
    def data(self, t):
        """value used in a comparison: containers by content"""
        if any(r.op == 'ref' for r in t.fv):
            return self.freeze(t)
        return t

    def truth_of(self, v):
        def f(x):
            if x.op == 'ref':
                info = _refs[x]
                if info.kind == 'list':
                    return truth(self.rd(x, '$seq'))
                if info.kind == 'dict' and info.cls is None:
                    return truth(self.rd(x, '$map'))
                if info.kind == 'set':
                    return truth(self.rd(x, '$set'))
                if info.cls is not None:
                    for nm in ('__bool__', '__len__'):
                        m = self.class_attr(info.cls, nm)
                        if m is not None:
                            return truth(self.call_method(x, nm, [], {}))
                return TRUE
            if x.op in ('inst', 'fn', 'wrap', 'super'):
                return TRUE
            return truth(x)
        if v.op != 'n':
            return f(v)
        return lift(f, v)

    # comprehensions: loops appending to a hidden list
    def comp(self, e, elt):
        fr = new_ref('frame', None, 'comp')
        info = _refs[fr]
        info.parent = self.frame
        info.locals = set()
        self.st.heap[fr] = {'$out': mk_seq('list', [])}
        old = self.frame
        src = self.ev(e.generators[0].iter)
        self.frame = fr
        def gen(i, src):
            g = e.generators[i]
            def body(x):
                self.assign(g.target, x)
                def inner():
                    if i + 1 < len(e.generators):
                        gen(i + 1, self.ev(e.generators[i + 1].iter))
                    else:
                        v = elt()
                        self.wr(fr, '$out', seq_concat('list', self.rd(fr, '$out'), mk_seq('list', [unit(v)])))
                c = TRUE
                def conds(j):
                    if j == len(g.ifs):
                        return inner()
                    c = self.truth_of(self.ev(g.ifs[j]))
                    self.branch(c, lambda: conds(j + 1))
                conds(0)
            self.iterate(src, body)
        gen(0, src)
        out = self.rd(fr, '$out')
        self.frame = old
        self.drop_frame(fr, e)
        return out
    def drop_frame(self, fr, node):
        if not any(isinstance(n, (ast.Lambda, ast.FunctionDef)) for n in ast.walk(node)):
            self.st.heap.pop(fr, None)
    def e_ListComp(self, e):
        return self.new_list(self.comp(e, lambda: self.ev(e.elt)))
    def e_GeneratorExp(self, e):
        return seq_retype(self.comp(e, lambda: self.ev(e.elt)), 'gen')
    def e_SetComp(self, e):
        return self.new_set(self.comp(e, lambda: self.ev(e.elt)))
    def e_DictComp(self, e):
        s = self.comp(e, lambda: tup(self.ev(e.key), self.ev(e.value)))
        return self.new_dict(self.models.map_of_pairs(self, mk_map(None, {}), s))
    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        fr = self.frame
        while _refs[fr].fn is None:
            fr = _refs[fr].parent
        v = self.freeze(v, {r for r in v.fv if r.op == 'ref' and _refs[r].kind in ('inst', 'list', 'dict')})
        self.wr(fr, '$out', seq_concat('list', self.rd(fr, '$out'), mk_seq('list', [unit(v)])))
        return NONE
    def e_YieldFrom(self, e):
        fr = self.frame
        while _refs[fr].fn is None:
            fr = _refs[fr].parent
        s = self.as_seq(self.ev(e.value))
        self.wr(fr, '$out', seq_concat('list', self.rd(fr, '$out'), s))
        return NONE

    # ------------------------------------------------------------ iteration
    def as_seq(self, v):
        """sequence (term) of the elements an iteration over v yields"""
        def f(x):
            return self.models.iter_of(self, x)
        return lift(f, v) if v.op == 'n' else f(v)

    def iterate(self, v, body):
        s = self.as_seq(v)
        self.iter_seq(s, body)
        self.st.ctl = mapleaves(lambda x: N if x is CONT else x, self.st.ctl) if self.st.ctl is not N else N

    def iter_seq(self, s, body):
        l = self.live()
        if l is FALSE:
            return
        if l is not TRUE:
            self.branch(l, lambda: self.iter_seq(s, body))
            return
        def on_leaf(x):
            if x is BOT:
                return BOT
            for p in as_pieces(x):
                l = self.live()
                if l is FALSE:
                    break
                def one(p=p):
                    if p.op == 'u':
                        self.body_once(lambda: body(p.args[0]))
                    elif p.op == 'sp':
                        src = p.args[0]
                        self.loop(app('len', src), lambda i: body(app('at', src, i)))
                    else:
                        cnt, ix, _, (bd,) = open_x(p)
                        self.loop(cnt, lambda i: self.iter_seq(subst(bd, {ix: i}), body))
                if l is TRUE:
                    one()
                else:
                    self.branch(l, one)
            return BOT
        self.each_leaf(s, on_leaf)

    def body_once(self, f):
        f()
        if self.st.ctl is not N:
            self.st.ctl = mapleaves(lambda x: N if x is CONT else x, self.st.ctl)

    def s_For(self, s):
        s = self.plain_for(s)
        self.enum_of = self.view_of = None
        src = self.ev(s.iter)
        ref, wrap = src, lambda i, x: x
        view = self.view_of[1] if self.view_of is not None and self.view_of[0] is src else None
        if src.op == 'ref' and _refs[src].kind == 'dict':
            view = src
        if self.enum_of is not None and src is self.enum_of[0]:
            ref, start = self.enum_of[1:]
            wrap = lambda i, x: tup(add(start, K(i)), x)
        def body(x):
            before = self.rd(view, '$map') if view is not None else None
            self.assign(s.target, x)
            self.exec_block(s.body)
            if view is not None and self.rd(view, '$map') is not before:
                # the view is asked for the next element: an error when the dictionary has grown or shrunk
                after = self.rd(view, '$map')
                self.st.ctl = mapleaves(lambda q: N if q is CONT else q, self.st.ctl) if self.st.ctl is not N else N
                self.raise_if(lift(lambda a, b: b_not(eq(app('len', a), app('len', b))), before, after), 'RuntimeError', K('dictionary changed size'))
        self.nloop += 1
        if ref.op == 'ref' and _refs[ref].kind == 'list' and _refs[ref].cls is None:
            self.iterate_list(ref, src, wrap, body)
        else:
            self.iterate(src, body)
        self.end_loop(s)

    def iterate_list(self, ref, src, wrap, body):
        """a list is read while the loop runs: what the body does to it counts"""
        seq = self.rd(ref, '$seq')
        explicit = lambda q: q.op == 'q' and all(p.op == 'u' for p in q.args[1])
        if not all(explicit(q) for q in leaves(seq) if q is not BOT):
            n = len(self.wlog)
            self.wlog.append(set())
            self.iterate(src, body)
            w = self.wlog.pop()
            if self.wlog:
                self.wlog[-1] |= w
            if (ref, '$seq') in w and self.rd(ref, '$seq') is not seq:
                raise Unsupported('a list changed while it is iterated')
            return
        for i in range(UNROLL + 1):
            more = []
            def on(q):
                if q is BOT:
                    return BOT
                if not explicit(q):
                    raise Unsupported('a list changed while it is iterated')
                if i < len(q.args[1]):
                    more.append(i)
                    self.body_once(lambda: body(wrap(i, q.args[1][i].args[0])))
                return BOT
            l = self.live()
            if l is FALSE:
                break
            if sum(1 for q in leaves(self.rd(ref, '$seq'))) > 40:
                raise Unsupported('a list changed in too many ways while it is iterated')
            step = lambda: self.each_leaf(self.rd(ref, '$seq'), on)
            step() if l is TRUE else self.branch(l, step)
            if not more:
                break
        else:
            if more:
                raise Unsupported('a list changed while it is iterated')
        self.st.ctl = mapleaves(lambda x: N if x is CONT else x, self.st.ctl) if self.st.ctl is not N else N

    def end_loop(self, s):
        ctl = self.st.ctl
        broke = cond_of(ctl, lambda x: x is BRK)
        if s.orelse:
            l = self.live()
            self.branch(l, lambda: self.exec_block(s.orelse)) if l is not TRUE else self.exec_block(s.orelse)
            ctl = self.st.ctl
        if broke is not FALSE:
            self.st.ctl = mapleaves(lambda x: N if x is BRK else x, ctl)

    def loop(self, count, body):
        """analyse `for ix in range(count): body(ix)`; leaves break / return / raise in ctl"""
        l = self.live()
        if l is FALSE:
            return
        if l is not TRUE:
            self.branch(l, lambda: self.loop(count, body))
            return
        if self.st.pc is not TRUE:
            count = under(count, self.st.pc)
        if count.op == 'n':
            self.each_leaf(count, lambda c: (self.loop(c, body), BOT)[1])
            return
        if count is BOT:
            return
        n = kint(count)
        if n is not None and n <= UNROLL:
            for i in range(n):
                l = self.live()
                if l is FALSE:
                    break
                if l is TRUE:
                    self.body_once(lambda: body(K(i)))
                else:
                    self.branch(l, lambda: self.body_once(lambda: body(K(i))))
            return
        self.general_loop(count, body)

    def general_loop(self, count, body, cond=None):
        """cond: while-condition evaluated at the start of every iteration (count None)"""
        st0 = self.st
        ix = fresh('ix', 'int')
        mods = {}
        kinds = {}
        for rnd in range(20):
            self.st = State(dict(st0.heap), N, b_and(st0.pc, lt(ix, count)) if count is not None else st0.pc)
            base = self.st
            phis = {}
            for loc in mods:
                r, f = loc
                init = self.init_of(st0, loc)
                k = kinds.get(loc)
                if k is None:
                    k = kinds[loc] = self.phi_kind(init, f)
                phi = mods[loc] = fresh('phi', k)
                phis[loc] = phi
                o = dict(base.heap.get(r, {}))
                o[f] = phi
                base.heap[r] = o
            self.wlog.append(set())
            self.loopdepth += 1
            nrefs = len(_refs)
            if cond is not None:
                c = cond()
                self.branch(b_not(c), lambda: setattr(self.st, 'ctl', BRK))
                if self.live() is not FALSE:
                    self.branch(self.live(), body) if self.live() is not TRUE else body()
            else:
                body(ix)
            self.loopdepth -= 1
            w = self.wlog.pop()
            new = [loc for loc in w if loc not in mods and loc[0] in st0.heap and
                   not (loc[0] is OST and (ix in loc[1].fv or any(p in loc[1].fv for p in phis.values())))]
            end = self.st
            again = False
            for loc in new:
                mods[loc] = None
                again = True
            if not again:
                # kinds stable?
                for loc, phi in phis.items():
                    nx = end.heap[loc[0]][loc[1]]
                    if isinstance(kinds[loc], str) and kinds[loc] not in ('?',):
                        ks = {kind(x) for x in leaves(nx) if x is not BOT and x is not UNDEF}
                        if kinds[loc] == 'int' and not ks <= {'int'}:
                            kinds[loc] = 'num' if ks <= {'int', 'num', 'bool'} else '?'
                            again = True
                        elif kinds[loc] == 'num' and not ks <= {'int', 'num', 'bool'}:
                            kinds[loc] = '?'
                            again = True
                        elif kinds[loc] in ('str', 'bool') and not ks <= {kinds[loc]}:
                            kinds[loc] = '?'
                            again = True
            if not again:
                break
        else:
            raise Unsupported('loop does not stabilise')
        # freeze what the body allocated
        fresh_refs = {r for r in end.heap if r not in st0.heap}
        ctl = mapleaves(lambda x: N if x is CONT else x, end.ctl)
        self.st = end
        self.st.ctl = N
        nexts = {}
        for loc in phis:
            nx = end.heap[loc[0]][loc[1]]
            nexts[loc] = self._freeze(nx, fresh_refs, {}, set())
        ctl = self._freeze(ctl, fresh_refs, {}, set())
        inits = {loc: self.init_of(st0, loc) for loc in phis}
        self.st = State(dict(st0.heap), st0.ctl, st0.pc)
        self.close_loop(count, ix, phis, inits, nexts, ctl)

    def init_of(self, st, loc):
        v = st.heap[loc[0]].get(loc[1])
        if v is None:
            v = self.lazy_default(*loc)
        if v.op == 'n' and st.pc is not TRUE:
            v = under(v, st.pc)
        return v

    def phi_kind(self, init, f):
        if f in ('$seq', '$out', '$set') or (isinstance(f, str) and f.startswith('$trace')):
            return 'list'
        if f == '$map':
            return 'map'
        k = kind(init)
        if k == 'int':
            return 'int'
        if k in ('num', 'str', 'bool'):
            return k
        if init.op == 'q':
            return init.args[0] if init.args[0] != 'gen' else '?'
        return '?'

    def close_loop(self, count, ix, phis, inits, nexts, ctl):
        exitc = b_not(live_of(ctl)) if ctl is not N else FALSE
        locs = list(phis)
        # while loops: find the counter
        if count is None:
            count, ctl, exitc, nexts = self.while_counter(ix, phis, inits, nexts, ctl, exitc)
        allphi = frozenset(phis.values())
        norm = {loc: (under(nexts[loc], b_not(exitc)) if exitc is not FALSE else nexts[loc]) for loc in locs}
        at = {}                       # loc -> function n -> value after n iterations
        solved = {}                   # phi -> value before iteration ix
        pending = [loc for loc in locs]
        progress = True
        while progress and pending:
            progress = False
            for loc in list(pending):
                phi, init = phis[loc], inits[loc]
                nx = subst(norm[loc], solved) if solved else norm[loc]
                f = self.recur(loc, phi, init, nx, ix, allphi, count)
                if f is not None:
                    at[loc] = f
                    pending.remove(loc)
                    progress = True
                    self.loop_ix = ix
                    solved[phi] = f(ix)
        if pending:
            # temporaries that are undefined before the loop and never read in it
            used = set()
            nxs = {loc: subst(norm[loc], solved) for loc in pending}
            ex = subst(exitc, solved)
            if ex.fv & allphi:
                self.fold_with_exit(count, ix, phis, inits, nexts, ctl, exitc, at, solved, pending)
                return
            # dependency closure
            for loc in pending:
                phi = phis[loc]
                deps = self.phi_deps(loc, pending, phis, nxs)
                if deps == [loc]:
                    nx = nxs[loc]
                    at[loc] = (lambda phi, init, nx: lambda n: self.mk_fold(n, ix, [phi], [init], [nx], 0))(phi, inits[loc], nx)
                else:
                    if inits[loc] is UNDEF and not any(phi in nxs[l].fv for l in pending if l is not loc):
                        at[loc] = lambda n: UNDEF
                        continue
                    deps = self.order_locs(deps, inits, nxs)
                    ps = [phis[d] for d in deps]
                    ii = [inits[d] for d in deps]
                    bb = [nxs[d] for d in deps]
                    at[loc] = (lambda ps, ii, bb, k: lambda n: self.mk_fold(n, ix, ps, ii, bb, k))(ps, ii, bb, deps.index(loc))
            for loc in pending:
                solved[phis[loc]] = at[loc](ix)
        ex = subst(exitc, solved)
        if ex is FALSE:
            for loc in locs:
                self.wr(loc[0], loc[1], at[loc](count))
            return
        E = mk_x('exists', count, ix, [], [], [ex])
        if E is FALSE:
            for loc in locs:
                self.wr(loc[0], loc[1], at[loc](count))
            return
        first = lift(lambda c: mk_first(c, ix, ex), count)
        m = dict(solved)
        for loc in locs:
            fin = subst(under(nexts[loc], exitc), m) if nexts[loc] is not phis[loc] else solved[phis[loc]]
            if fin.fv & frozenset([ix]):
                fin = subst(fin, {ix: first})
            v = ite(E, fin, at[loc](count)) if fin is not at[loc](count) else fin
            self.wr(loc[0], loc[1], v)
        c = subst(under(ctl, exitc), m)
        if ix in c.fv:
            c = subst(c, {ix: first})
        self.st.ctl = ite(E, c, self.st.ctl)

    def phi_deps(self, loc, pending, phis, nxs):
        out, work = [loc], [loc]
        while work:
            l = work.pop()
            for p in pending:
                if phis[p] in nxs[l].fv and p not in out:
                    out.append(p)
                    work.append(p)
        return out

    def order_locs(self, deps, inits, nxs):
        def key(loc):
            return (_refs[loc[0]].kind != 'world', show(inits[loc], 4), len(show(nxs[loc], 6)), str(loc[1]))
        return sorted(deps, key=key)

    def mk_fold(self, n, ix, ps, ii, bb, k):
        kc = kint(n)
        if kc == 0:
            return ii[k]
        x = mk_x('fold', n, ix, ps, ii, bb)
        if len(ps) == 1:
            return x
        return lift(lambda y: rawapp('proj', y, K(k)), x)

    def fold_with_exit(self, count, ix, phis, inits, nexts, ctl, exitc, at, solved, pending):
        """the exit condition depends on folded state: fold the pair (state, exit status)"""
        locs = list(phis)
        allp = [l for l in locs]
        done = fresh('phi', '?')
        isdone = b_not(eq(done, NONE))
        # exit status: None while running, the control value afterwards
        st_next = mapleaves(lambda x: NONE if x is N else rawapp('exit', x) if x.args[1] is None else rawapp('exit', K(x.args[0]), x.args[1]), ctl)
        deps = self.order_locs([l for l in allp if l in pending], inits, nexts)
        nxs = {}
        sub_ok = {p: v for p, v in solved.items()}
        for l in deps:
            nxs[l] = ite(isdone, phis[l], subst(nexts[l], sub_ok))
        sx = ite(isdone, done, subst(st_next, sub_ok))
        ps = [phis[l] for l in deps] + [done]
        ii = [inits[l] for l in deps] + [NONE]
        bb = [nxs[l] for l in deps] + [sx]
        n = count if count is not None else rawapp('forever')
        for l in locs:
            if l in deps:
                self.wr(l[0], l[1], self.mk_fold(n, ix, ps, ii, bb, deps.index(l)))
            else:
                if inits[l] is UNDEF:
                    self.wr(l[0], l[1], UNDEF)
                else:
                    raise Unsupported('exit of a loop with mixed state')
        s = self.mk_fold(n, ix, ps, ii, bb, len(deps))
        kinds_ = {x.args[0] for x in leaves(ctl) if x.op == 'ctl'}
        if kinds_ <= {'n', 'brk'}:
            # whether it broke only matters for an else clause
            self.st.ctl = ite(lift(lambda y: eq(y, NONE), s), N, BRK)
        elif kinds_ <= {'n', 'ret'} or kinds_ <= {'n', 'ret', 'brk'}:
            isret = lift(lambda y: batom(rawapp('in', K('ret'), y)), s)
            self.st.ctl = ite(lift(lambda y: eq(y, NONE), s), N, ctl_ret(lift(lambda y: rawapp('retval', y), s)))
        else:
            self.st.ctl = ite(lift(lambda y: eq(y, NONE), s), N, ctl_raise(rawapp('exc', K('Exception'), s)))

    def while_counter(self, ix, phis, inits, nexts, ctl, exitc):
        """while cond: ... with a counter: turn it into a counted loop"""
        allphi = frozenset(phis.values())
        def try_cond(c):
            # exit condition with a conjunct  phi >= bound
            for loc, phi in phis.items():
                nx = under(nexts[loc], b_not(exitc))
                d = sub(nx, phi) if all(is_num(l) or l is phi for l in leaves(nx)) else None
                if d is None or not (isk(d, 'num') and kval(d) in (1, -1)):
                    continue
                step = kval(d)
                b = _bound_in(c, phi, step, allphi)
                if b is not None:
                    return loc, phi, step, b
            return None
        r = try_cond(exitc)
        if r is None:
            raise WhileUnsupported()
        loc, phi, step, (bound_, rest) = r
        n = sub(bound_, inits[loc]) if step == 1 else sub(inits[loc], bound_)
        n = n if is_nonneg(n) else app('max', ZERO, n)
        ctl2 = ite(rest, ctl, N)
        inside = b_not(_region_exit(phi, bound_, step))
        ctl2 = under(ctl, inside)
        nx2 = {l: under(v, inside) for l, v in nexts.items()}
        ex2 = b_not(live_of(ctl2)) if ctl2 is not N else FALSE
        return n, ctl2, ex2, nx2

    def s_While(self, s):
        s = self.plain_while(s)
        f = self.while_index(s)
        if f is not None:
            return self.s_For(f)
        self.nloop += 1
        st0 = self.st
        l = self.live()
        # constant-driven loops are unrolled
        for i in range(UNROLL):
            st_save = State(dict(self.st.heap), self.st.ctl, self.st.pc)
            c = self.truth_of(self.ev(s.test))
            if c is FALSE or (self.st.pc is not TRUE and under(c, self.st.pc) is FALSE):
                self.end_loop(s)
                return
            if c is TRUE and i < UNROLL - 1 and not isinstance(s.test, ast.Constant):
                self.body_once(lambda: self.exec_block(s.body))
                if self.st.ctl is not N:
                    self.st = st_save if i == 0 else self.st
                    if i == 0:
                        break
                    raise Unsupported('while')
                continue
            self.st = State(dict(st_save.heap), st_save.ctl, st_save.pc)
            break
        saved = State(dict(self.st.heap), self.st.ctl, self.st.pc)
        if self.bounded_test(s.test):
            try:
                if l is TRUE:
                    self.peel(s, 0)
                elif l is not FALSE:
                    self.branch(l, lambda: self.peel(s, 0))
                self.end_loop(s)
                return
            except WhileUnsupported:
                self.st = State(dict(saved.heap), saved.ctl, saved.pc)
        try:
            self.general_loop(None, lambda: self.exec_block(s.body), cond=lambda: self.truth_of(self.ev(s.test)))
        except WhileUnsupported:
            self.st = saved
            self.opaque_while(s)
        self.end_loop(s)

    def plain_for(self, s):
        """for i in range(len(xs)), where i only appears as xs[i]  ==  for x in xs (when xs is not a sequence of known elements)"""
        r = getattr(s, '_plainfor', None)
        if r is None:
            s._plainfor = r = (self.index_free(s),)
        r = r[0]
        if r is None:
            return s
        v = self.ev(r.iter)
        if v.op == 'ref' and _refs[v].kind == 'list' and _refs[v].cls is None:
            v = self.rd(v, '$seq')
        if not all(q.op == 'q' and any(p.op != 'u' for p in q.args[1]) for q in leaves(v)):
            return s
        return r
    def index_free(self, s, known=None):
        it = s.iter
        def call(e, f):
            return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == f and len(e.args) == 1 and not e.keywords
        if s.orelse or not (isinstance(s.target, ast.Name) and call(it, 'range') and call(it.args[0], 'len') and isinstance(it.args[0].args[0], ast.Name)):
            return None
        xs, i = it.args[0].args[0].id, s.target.id
        if xs == i:
            return None
        fr = self.frame
        while _refs[fr].fn is None:
            fr = _refs[fr].parent
            if fr is None:
                return None
        whole = _refs[fr].fn.node
        inside = [x for b in s.body for x in ast.walk(b)]
        if sum(isinstance(x, ast.Name) and x.id == i for x in ast.walk(whole)) != 1 + sum(isinstance(x, ast.Name) and x.id == i for x in inside) and not known:
            return None
        uses = {id(x.slice.value if isinstance(x.slice, ast.Index) else x.slice) for x in inside if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load)
                and isinstance(x.value, ast.Name) and x.value.id == xs}
        for x in inside:
            if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.Global, ast.Nonlocal)):
                return None
            if isinstance(x, ast.Name):
                if x.id == i and (id(x) not in uses or not isinstance(x.ctx, ast.Load)):
                    return None
                if x.id == xs and not isinstance(x.ctx, ast.Load):
                    return None
        if not uses:
            return None
        import copy
        el = '%s [%s]' % (xs, i)
        class R(ast.NodeTransformer):
            def visit_Subscript(self, n):
                if isinstance(n.value, ast.Name) and n.value.id == xs and isinstance(n.slice, ast.Name) and n.slice.id == i:
                    return ast.copy_location(ast.Name(el, ast.Load()), n)
                return self.generic_visit(n)
        f = ast.For(ast.Name(el, ast.Store()), ast.Name(xs, ast.Load()), [R().visit(copy.deepcopy(b)) for b in s.body], [], None)
        return ast.fix_missing_locations(ast.copy_location(f, s))
    def while_index(self, s):
        """k = 0; while k < len(xs): .. xs[k] ..; k += 1; ..  ==  for x in xs (k used for nothing else; xs not of known elements)"""
        r = getattr(s, '_windex', None)
        if r is None:
            s._windex = r = (self.while_index_free(s),)
        if r[0] is None:
            return None
        k, f, g = r[0]
        v = self.lookup(k)
        if v is UNDEF or v is None or not (isk(v) and kval(v) == 0):
            return None
        g = self.plain_for(f)
        return g if g is not f else None
    def while_index_free(self, s):
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)):
            return None
        k, e = t.left.id, t.comparators[0]
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1 and isinstance(e.args[0], ast.Name)):
            return None
        inc = [j for j, b in enumerate(s.body) if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and b.target.id == k and isinstance(b.op, ast.Add)
               and isinstance(b.value, ast.Constant) and b.value.value == 1]
        if len(inc) != 1:
            return None
        j = inc[0]
        if any(isinstance(x, ast.Continue) for b in s.body[:j] for x in ast.walk(b)):
            return None
        if any(isinstance(x, ast.Name) and x.id == k for b in s.body[j + 1:] for x in ast.walk(b)):
            return None
        fr = self.frame
        while _refs[fr].fn is None:
            fr = _refs[fr].parent
            if fr is None:
                return None
        whole = _refs[fr].fn.node
        n_in = sum(isinstance(x, ast.Name) and x.id == k for b in s.body for x in ast.walk(b))
        # besides the loop: its start only
        if sum(isinstance(x, ast.Name) and x.id == k for x in ast.walk(whole)) != n_in + 2:
            return None
        f = ast.For(ast.Name(k, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [e], []), s.body[:j] + s.body[j + 1:], [], None)
        f = ast.fix_missing_locations(ast.copy_location(f, s))
        f._plainfor = (self.index_free(f, 1),)
        return k, f, None
    def plain_while(self, s):
        """while True: if c: break; rest  ==  while not c: rest"""
        if not (isinstance(s.test, ast.Constant) and s.test.value) or s.orelse:
            return s
        r = getattr(s, '_plain', None)
        if r is None:
            tests, body = [], list(s.body)
            while body and isinstance(body[0], ast.If) and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break):
                t = body[0].test
                tests.append(t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), t), t))
                body[:1] = body[0].orelse
            r = s
            if tests and body:
                r = ast.While(tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests), body, [])
                ast.fix_missing_locations(ast.copy_location(r, s))
                for k in s.__dict__:
                    if k.startswith('_') and not hasattr(r, k):
                        setattr(r, k, getattr(s, k))
            s._plain = r
        return r

    def bounded_test(self, test):
        """does the loop test look at a sequence of known length or a known counter? then peeling it ends"""
        for n in ast.walk(test):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                v = self.lookup(n.id)
                for x in leaves(v) if v is not UNDEF and v is not None else []:
                    if x.op == 'ref' and _refs[x].kind == 'list':
                        x = self.rd(x, '$seq')
                    if x is not None and (isk(x, 'num') or x.op == 'q' and all(p.op == 'u' for p in x.args[1])):
                        return True
        return False
    def peel(self, s, depth):
        """while c: body  ==  if c: body; while c: body -- as long as the loop must end within a bound"""
        if depth > 14:
            raise WhileUnsupported()
        c = self.truth_of(self.ev(s.test))
        if self.st.pc is not TRUE:
            c = under(c, self.st.pc)
        def once():
            self.body_once(lambda: self.exec_block(s.body))
            l = self.live()
            if l is TRUE:
                self.peel(s, depth + 1)
            elif l is not FALSE:
                self.branch(l, lambda: self.peel(s, depth + 1))
        if c is TRUE:
            once()
        elif c is not FALSE:
            self.branch(c, once, lambda: BOT)

    def opaque_while(self, s):
        """while loop without a counter: a fold to the first state that leaves it"""
        st0 = self.st
        mods, kinds = {}, {}
        ix = fresh('ix', 'int')
        for rnd in range(20):
            self.st = State(dict(st0.heap), N, st0.pc)
            phis = {}
            for loc in mods:
                init = self.init_of(st0, loc)
                k = kinds.setdefault(loc, 'list' if loc[1] in ('$seq', '$out') else ('num' if kind(init) in ('int', 'num') else '?'))
                phi = phis[loc] = fresh('phi', k)
                o = dict(self.st.heap.get(loc[0], {}))
                o[loc[1]] = phi
                self.st.heap[loc[0]] = o
            self.wlog.append(set())
            c = self.truth_of(self.ev(s.test))
            self.exec_block(s.body)
            w = self.wlog.pop()
            new = [l for l in w if l not in mods and l[0] in st0.heap]
            if not new:
                break
            for l in new:
                mods[l] = None
        end = self.st
        ctl = mapleaves(lambda x: N if x is CONT else x, end.ctl)
        if ctl is not N:
            raise Unsupported('exit from a while loop')
        nx = {l: end.heap[l[0]][l[1]] for l in phis}
        inits = {l: self.init_of(st0, l) for l in phis}
        self.st = State(dict(st0.heap), st0.ctl, st0.pc)
        # keep only state the condition or a kept location depends on
        for loc in phis:
            deps, work = [loc], [loc]
            cfv = c.fv
            for p in phis:
                if phis[p] in cfv and p not in deps:
                    deps.append(p)
                    work.append(p)
            while work:
                l = work.pop()
                for p in phis:
                    if phis[p] in nx[l].fv and p not in deps:
                        deps.append(p)
                        work.append(p)
            deps = self.order_locs(deps, inits, nx)
            t = raw_x('while', ONE, ix, [phis[d] for d in deps], [inits[d] for d in deps], [c] + [nx[d] for d in deps])
            self.wr(loc[0], loc[1], lift(lambda y: rawapp('proj', y, K(deps.index(loc))), t))

    # ---------------- recurrences
    def recur(self, loc, phi, init, nx, ix, allphi, count):
        others = (nx.fv & allphi) - {phi}
        if nx is phi:
            return lambda n: init
        if others:
            return None
        if phi not in nx.fv:
            # overwritten by every iteration
            def f(n):
                if kint(n) == 0:
                    return init
                v = subst(nx, {ix: sub(n, ONE)})
                if v is init:
                    return v
                return ite(lt(ZERO, n), v, init)
            return f
        lv = leaves(nx)
        # sequences
        if kind(phi) == 'list' or all(x is phi or x.op == 'q' for x in lv):
            g = self.append_part(nx, phi)
            if g is not None:
                def f(n):
                    return seq_concat('list', init, mk_x('flat', n, ix, [], [], [g]))
                return f
            g = self.seqset_part(nx, phi, ix)
            if g is not None:
                r = self.close_seqset(g, phi, init, ix)
                if r is not None:
                    return r
            g = self.vector_part(nx, phi, init)
            if g is not None:
                return self.close_vector(g, init, ix)
        if kind(phi) == 'map':
            g = self.map_part(nx, phi)
            if g is not None:
                return lambda n: self.models.map_of_pairs(self, init, mk_x('flat', n, ix, [], [], [g]))
        if phi.args[1] == 'str' or kind(init) == 'str':
            g = self.strcat_part(nx, phi)
            if g is not None:
                return lambda n: strcat(init, self.models.join_(K(''), mk_x('flat', n, ix, [], [], [g])))
        # sums
        if all(is_plain_num(x) for x in lv if x is not BOT) and is_num_like(init):
            d = lift(lambda x: sub(x, phi), nx)
            if phi not in d.fv:
                if ix not in d.fv:
                    return lambda n: add(init, mul(n, d)) if d.op != 'n' else add(init, lift(lambda x: mul(n, x), d))
                return lambda n: add(init, mk_x('sum', n, ix, [], [], [d]))
            q = lift(lambda x: div_by(x, phi), nx)
            if q is not None and not any(x is BOT for x in leaves(q)) and phi not in q.fv:
                if ix not in q.fv and q.op != 'n':
                    return lambda n: mul(init, power(q, n))
                return lambda n: mul(init, mk_x('prod', n, ix, [], [], [q]))
        # absorbing flags
        cs = [x for x in lv if x is not phi]
        if all(not (x.fv & (allphi | {ix})) for x in cs):
            r = self.absorbing(phi, init, nx, ix, cs)
            if r is not None:
                return r
        return None

    def append_part(self, nx, phi):
        def strip(x):
            if x is phi:
                return mk_seq('list', [])
            if x is BOT:
                return BOT
            if x.op == 'q' and x.args[1] and x.args[1][0].op == 'sp' and x.args[1][0].args[0] is phi:
                r = mk_seq('list', x.args[1][1:])
                return r if phi not in r.fv else UNDEF
            return UNDEF
        g = lift(strip, nx)
        if any(x is UNDEF for x in leaves(g)) or phi in g.fv:
            return None
        return g

    def strcat_part(self, nx, phi):
        def strip(x):
            if x is phi:
                return mk_seq('list', [])
            if x.op == 'st' and x.args[0] is phi:
                r = strcat(*x.args[1:])
                return mk_seq('list', [unit(r)]) if phi not in r.fv else UNDEF
            return UNDEF
        g = lift(strip, nx)
        if any(x is UNDEF for x in leaves(g)) or phi in g.fv:
            return None
        return g

    def map_part(self, nx, phi):
        def strip(x):
            ps = []
            while x is not phi:
                if x.op == 'a' and x.args[0] == 'mapset':
                    ps.append(unit(tup(x.args[2], x.args[3])))
                    x = x.args[1]
                elif x.op == 'map' and x.args[0] is not None:
                    for k, v in reversed(x.args[1]):
                        ps.append(unit(tup(k, v)))
                    x = x.args[0]
                else:
                    return UNDEF
            r = mk_seq('list', ps[::-1])
            return r if phi not in r.fv else UNDEF
        g = lift(strip, nx)
        if any(x is UNDEF for x in leaves(g)) or phi in g.fv:
            return None
        return g

    def seqset_part(self, nx, phi, ix):
        """nx = phi with element ix replaced by a function of phi[ix]"""
        at_ = rawapp('at', phi, ix)
        e = fresh('elt', 'num')
        def strip(x):
            if x is phi:
                return e
            if x.op == 'a' and x.args[0] == 'seqset' and x.args[1] is phi and x.args[2] is ix:
                r = replace_terms(x.args[3], {at_: e})
                return r if phi not in r.fv else UNDEF
            return UNDEF
        g = lift(strip, nx)
        if phi in g.fv:
            g = replace_terms(g, {at_: e})
        if any(x is UNDEF for x in leaves(g)) or phi in g.fv:
            return None
        return e, g

    def close_seqset(self, eg, phi, init, ix):
        e, g = eg
        ln = app('len', init)
        if ln.op == 'n':
            return None
        def f(n):
            full = mk_x('flat', n, ix, [], [], [mk_seq('list', [unit(subst(g, {e: app('at', init, ix)}))])])
            if n is ln:
                return full
            return seq_concat('list', full, seq_slice(init, n, NONE))
        return f

    def vector_part(self, nx, phi, init):
        """every leaf is phi or [phi[j] + g(j) for j in range(len(init))]"""
        ln = app('len', init)
        if ln.op == 'n':
            return None
        J = fresh('ix', 'int')
        def strip(x):
            if x is phi:
                return ZERO
            if x is BOT:
                return BOT
            if x.op == 'q' and len(x.args[1]) == 1 and x.args[1][0].op == 'x':
                sf = simple_flat(x.args[1][0])
                if sf is None:
                    return UNDEF
                cnt, j, el = sf
                if cnt is not ln and cnt is not app('len', phi):
                    return UNDEF
                el = subst(el, {j: J})
                d = sub(el, rawapp('at', phi, J))
                return d if phi not in d.fv else UNDEF
            return UNDEF
        g = lift(strip, nx)
        if any(x is UNDEF for x in leaves(g)) or phi in g.fv:
            return None
        return J, g, ln

    def close_vector(self, jg, init, ix):
        J, g, ln = jg
        def f(n):
            el = add(app('at', init, J), mk_x('sum', n, ix, [], [], [g]))
            return mk_x('flat', ln, J, [], [], [mk_seq('list', [unit(el)])])
        return f

    def absorbing(self, phi, init, nx, ix, cs):
        """flags: once set they stay set"""
        vals = []
        for x in cs:
            if x is not init and x not in vals and x is not BOT:
                vals.append(x)
        if init.op == 'n' or init.op == 'p':
            return None
        start = subst(nx, {phi: init})
        if len(vals) == 0:
            return lambda n: init
        if len(vals) == 1:
            w = vals[0]
            stay = subst(nx, {phi: w})
            if stay is w and all(x in (init, w, BOT) for x in leaves(start)):
                c = cond_of(start, lambda x: x is w)
                if phi not in c.fv:
                    return lambda n: ite(mk_x('exists', n, ix, [], [], [c]), w, init)
        return None

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name):
        """attribute through the MRO (depth first, enough for this code base) -> term or None"""
        for c in self.mro(cls):
            if c.op == 'cls':
                v = self.rd(obj(c).frame, name)
                if v is not None and v is not UNDEF:
                    return v
        return None
    def mro(self, cls):
        out = []
        def rec(c):
            if c in out:
                out.remove(c)
            out.append(c)
            if c.op == 'cls':
                for b in obj(c).bases:
                    rec(b)
        rec(cls)
        return out
    def find_in_mro(self, cls, name):
        for c in self.mro(cls):
            if c.op == 'cls':
                v = self.rd(obj(c).frame, name)
                if v is not None and v is not UNDEF:
                    return v, c
        return None, None

    def getattr_(self, o, name):
        return self.each_leaf(o, lambda x: self.getattr1(x, name))

    def getattr1(self, x, name):
        if x is BOT or x is UNDEF:
            return BOT
        if x.op == 'bi':
            return self.models.ext_attr(self, x, name)
        if x.op == 'mod':
            v = self.rd(obj(x), name)
            if v is None:
                self.raise_if(TRUE, 'AttributeError', K(name))
                return BOT
            return v
        if x.op == 'cls':
            if name == '__name__':
                return K(obj(x).name)
            v = self.class_attr(x, name)
            if v is None:
                return rawapp('attr', x, K(name))
            return self.bind(v, None, x)
        if x.op == 'super':
            so = obj(x)
            m = self.mro(_refs[so.self_].cls if so.self_.op == 'ref' and _refs[so.self_].cls is not None else
                         (so.self_ if so.self_.op == 'cls' else so.cls))
            m = m[m.index(so.cls) + 1:] if so.cls in m else []
            for c in m:
                if c.op == 'cls':
                    v = self.rd(obj(c).frame, name)
                    if v is not None and v is not UNDEF:
                        return self.bind(v, so.self_, so.cls)
                elif c.op == 'bi':
                    return regobj('bm', ('superext', c.args[0], name, so.self_), ('superext', c.args[0], name, so.self_))
            return regobj('bm', ('superext', 'object', name, so.self_), ('superext', 'object', name, so.self_))
        if x.op == 'ref':
            info = _refs[x]
            v = self.rd(x, name)
            if v is not None and v is not UNDEF:
                return v
            if info.cls is not None:
                if name == '__class__':
                    return info.cls
                if name == '__dict__':
                    raise Unsupported('__dict__')
                a = self.class_attr(info.cls, name)
                if a is not None:
                    return self.bind(a, x, info.cls)
                for b in self.mro(info.cls):
                    if b.op == 'bi' and b.args[0] in ('dict', 'list', 'str', 'int', 'float', 'tuple', 'set') and hasattr(getattr(_pyb, b.args[0]), name):
                        return regobj('bm', ('ext', b.args[0], name, x), ('ext', b.args[0], name, x))
                g = self.class_attr(info.cls, '__getattr__')
                if g is not None:
                    return self.call(self.bind(g, x, info.cls), [K(name)], {})
                if info.lazy is not None and v is None:
                    v = info.lazy(name)
                    o = dict(self.st.heap[x])
                    o[name] = v
                    self.st.heap[x] = o
                    return v
                ext = [b for b in self.mro(info.cls) if b.op == 'bi']
                if ext:
                    return regobj('bm', ('ext', ext[0].args[0], name, x), ('ext', ext[0].args[0], name, x))
            elif info.lazy is not None and v is None:
                v = info.lazy(name)
                o = dict(self.st.heap[x])
                o[name] = v
                self.st.heap[x] = o
                return v
            elif info.kind in ('list', 'dict', 'set'):
                return regobj('bm', ('meth', x, name), ('meth', x, name))
            if info.kind in ('inst',):
                self.raise_if(TRUE, 'AttributeError', K(name))
                return BOT
            return regobj('bm', ('meth', x, name), ('meth', x, name))
        if x.op == 'inst':
            cls, names, vals = x.args
            if name in names:
                return vals[names.index(name)]
            a = self.class_attr(cls, name) if cls is not None else None
            if a is not None:
                return self.bind(a, self.thaw(x), cls)
            return rawapp('attr', x, K(name))
        if x.op == 'fn':
            f = obj(x)
            if name == '__name__' and isinstance(f, FuncVal):
                return K(f.name)
            return rawapp('attr', x, K(name))
        if x.op == 'wrap':
            w = obj(x)
            if w.kind == 'property' and name in ('setter', 'getter'):
                return regobj('bm', ('propset', x, name), ('propset', x, name))
            return rawapp('attr', x, K(name))
        if x.op == 'a' and x.args[0] == 'exc':
            if name == 'args':
                return mk_seq('tuple', [unit(a) for a in x.args[2:]])
            return rawapp('attr', x, K(name))
        if x is NONE and not hasattr(None, name):
            self.raise_if(TRUE, 'AttributeError', K(name))
            return BOT
        # methods of values
        return regobj('bm', ('meth', x, name), ('meth', x, name))

    def thaw(self, x):
        r = new_ref('inst', x.args[0])
        self.st.heap[r] = dict(zip(x.args[1], x.args[2]))
        return r

    def bind(self, a, self_, cls):
        def f(v):
            if v.op == 'wrap':
                w = obj(v)
                if w.kind == 'static':
                    return w.fn
                if w.kind == 'class':
                    c = cls if cls is not None else _refs[self_].cls
                    return regobj('bm', ('bound', w.fn, c), ('bound', w.fn, c))
                if w.kind == 'property':
                    if self_ is None:
                        return v
                    return self.call(w.fn, [self_], {})
            if v.op == 'fn' and self_ is not None and isinstance(obj(v), FuncVal):
                return regobj('bm', ('bound', v, self_), ('bound', v, self_))
            return v
        if a.op == 'n':
            return self.each_leaf(a, f)
        return f(a)

    def setattr_(self, o, name, v):
        def f(x):
            if x.op == 'ref':
                info = _refs[x]
                if info.cls is not None:
                    a = self.class_attr(info.cls, name)
                    if a is not None and a.op == 'wrap' and obj(a).kind == 'property' and obj(a).setter is not None:
                        return self.call(obj(a).setter, [x, v], {})
                    sa = self.class_attr(info.cls, '__setattr__')
                    if sa is not None:
                        return self.call(self.bind(sa, x, info.cls), [K(name), v], {})
                self.wr(x, name, v)
                return NONE
            if x.op == 'bi':
                self.wr(WORLD, x.args[0] + '.' + name, v)
                return NONE
            if x.op == 'mod':
                self.wr(obj(x), name, v)
                return NONE
            if x.op == 'cls':
                self.wr(obj(x).frame, name, v)
                return NONE
            if x is BOT:
                return NONE
            # attribute of an opaque object: a new version of it
            self.mutate(x, 'set:' + name, [v])
            return NONE
        self.each_leaf(o, f)

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        return self.each_leaf(o, lambda x: self.each_leaf(k, lambda kk: self.models.getitem(self, x, kk))
                              if (x.op == 'ref' and _refs[x].cls is not None) else self.models.getitem(self, x, k))
    def setitem(self, o, k, v):
        self.each_leaf(o, lambda x: self.models.setitem(self, x, k, v))
    def slice_(self, o, a, b, c):
        return self.each_leaf(o, lambda x: self.models.slice_(self, x, a, b, c))
    def contains(self, o, x):
        return self.each_leaf(o, lambda y: self.models.contains(self, y, x))
    def map_of(self, v):
        def f(x):
            if x.op == 'ref' and _refs[x].kind == 'dict':
                return self.rd(x, '$map')
            return x
        return lift(f, v)

    # ------------------------------------------------------------ opaque objects
    def ver(self, x):
        """current version of an opaque object"""
        v = self.st.heap[OST].get(x)
        if v is None:
            return rawapp('v0', x)
        if v.op == 'n' and self.st.pc is not TRUE:
            v = under(v, self.st.pc)
        return v
    def mutate(self, x, how, args):
        old = self.ver(x)
        args = [self.freeze(a) for a in args]
        self.wr(OST, x, app('mut:' + how, old, *args))

    def mutators(self):
        """names of repository methods that (transitively) write their object"""
        if self._mut is None:
            direct, calls = set(), {}
            for name, (src, tree, path) in self.sources.items():
                for c in ast.walk(tree):
                    if not isinstance(c, ast.ClassDef):
                        continue
                    for fn in c.body:
                        if not isinstance(fn, ast.FunctionDef) or not fn.args.args:
                            continue
                        s = fn.args.args[0].arg
                        for n in ast.walk(fn):
                            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == s:
                                if isinstance(n.ctx, (ast.Store, ast.Del)):
                                    direct.add(fn.name)
                            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                                v = n.func.value
                                if isinstance(v, ast.Name) and v.id == s or isinstance(v, ast.Call) and \
                                        isinstance(v.func, ast.Name) and v.func.id == 'super':
                                    calls.setdefault(fn.name, set()).add(n.func.attr)
                                if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == s and \
                                        n.func.attr in ('append', 'extend', 'pop', 'clear', 'update', 'insert', 'remove', 'setdefault'):
                                    direct.add(fn.name)
            m = set(direct)
            ch = True
            while ch:
                ch = False
                for f, cs in calls.items():
                    if f not in m and cs & m:
                        m.add(f)
                        ch = True
            m -= {'__init__', 'append'}
            allm = set()
            for name, (src, tree, path) in self.sources.items():
                for c in ast.walk(tree):
                    if isinstance(c, ast.ClassDef):
                        for fn in c.body:
                            if isinstance(fn, ast.FunctionDef):
                                allm.add(fn.name)
            self._mut = m
            self._allm = allm
        return self._mut

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        self.ncall += 1
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            if e.args:
                c = self.ev(e.args[0])
                s = self.ev(e.args[1])
            else:
                fr = self.frame
                while _refs[fr].fn is None:
                    fr = _refs[fr].parent
                fn = _refs[fr].fn
                c = fn.cls
                s = self.rd(fr, fn.node.args.args[0].arg)
            return regobj('super', SuperObj(c, s))
        f = self.ev(e.func)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.as_seq(self.ev(a.value))
                if s.op == 'q' and all(p.op == 'u' for p in s.args[1]):
                    args += [p.args[0] for p in s.args[1]]
                else:
                    args.append(Star(s))
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            if k.arg is None:
                m = self.map_of(self.ev(k.value))
                if m.op != 'map' or m.args[0] is not None:
                    kwargs['**'] = m
                else:
                    for kk, v in m.args[1]:
                        kwargs[kval(kk)] = v
            else:
                kwargs[k.arg] = self.ev(k.value)
        self.setloc(e)
        if f.op == 'bi' and f.args[0] == 'next' and args and isinstance(e.args[0], (ast.Name, ast.Attribute)) and args[0].op in ('q', 'n'):
            return self.advance(e.args[0], args, kwargs)
        return self.call(f, args, kwargs, e)
    def advance(self, target, args, kwargs):
        """next() of an iterator held by a variable: the variable goes on to hold the rest"""
        l = self.live()
        if l is FALSE:
            return BOT
        if l is not TRUE:
            return self.branch(l, lambda: self.advance(target, args, kwargs))
        def f(q):
            if q.op != 'q' or q.args[0] != 'gen':
                return self.call(bi('next'), [q] + args[1:], kwargs)
            if not q.args[1]:
                if len(args) > 1:
                    return args[1]
                self.raise_(rawapp('exc', K('StopIteration')))
                return BOT
            p = q.args[1][0]
            if p.op == 'u':
                self.assign(target, mk_seq('gen', q.args[1][1:]))
                return p.args[0]
            v = self.call(bi('next'), [q] + args[1:], kwargs)
            self.assign(target, app('consumed', q))
            return v
        return self.each_leaf(args[0], f)

    def call(self, f, args, kwargs, node=None):
        l = self.live()
        if l is FALSE:
            return BOT
        if l is not TRUE:
            return self.branch(l, lambda: self.call(f, args, kwargs, node))
        return self.each_leaf(f, lambda g: self.call1(g, args, kwargs, node))

    def call1(self, f, args, kwargs, node=None):
        if f is BOT or f is UNDEF:
            return BOT
        if f.op == 'fn':
            o = obj(f)
            if isinstance(o, FuncVal):
                return self.call_func(f, o, args, kwargs)
            if o[0] == 'partial':
                kw = dict(o[3])
                kw.update(kwargs)
                return self.call(o[1], list(o[2]) + args, kw)
            if o[0] == 'py':
                return o[1](self, args, kwargs)
            raise Unsupported('call of %r' % (o[0],))
        if f.op == 'cls':
            return self.instantiate(f, args, kwargs)
        if f.op == 'bm':
            o = obj(f)
            if o[0] == 'bound':
                return self.call(o[1], [o[2]] + args, kwargs)
            if o[0] == 'meth':
                return self.call_value_method(o[1], o[2], args, kwargs)
            if o[0] == 'superext' or o[0] == 'ext':
                return self.models.ext_method(self, o[1], o[2], o[3], args, kwargs, o[0] == 'superext')
            if o[0] == 'propset':
                w = obj(o[1])
                return regobj('wrap', Wrapper('property', w.fn, args[0]))
        if f.op == 'bi':
            return self.models.call_ext(self, f.args[0], args, kwargs)
        if f.op == 'ref':
            info = _refs[f]
            if info.cls is not None:
                return self.call_method(f, '__call__', args, kwargs)
        if f.op == 'a' and f.args[0] == 'partial':
            kw = {kval(k): v for k, v in f.args[3].args[1]}
            kw.update(kwargs)
            return self.call(f.args[1], [p.args[0] for p in f.args[2].args[1]] + args, kw)
        if is_num(f) and 'call:num' in self.stubs:
            return self.stubs['call:num'](self, f, args, kwargs)
        if f.op in ('k', 'q', 'st', 'map') or self.models.ptype(f) is not None:
            self.raise_if(TRUE, 'TypeError')
            return BOT
        # unknown callable: an uninterpreted function of its arguments
        t = app('call', f, *self.flat_args(args, kwargs))
        self.may_raise(t)
        return t

    def flat_args(self, args, kwargs):
        out = [self.freeze(a) if not isinstance(a, Star) else rawapp('star', self.freeze(a.seq)) for a in args]
        for k in sorted(kwargs):
            out.append(app('kw:' + k, self.freeze(kwargs[k])))
        return out

    def call_method(self, o, name, args, kwargs):
        return self.call(self.getattr_(o, name), args, kwargs)

    def call_value_method(self, x, name, args, kwargs):
        r = self.models.value_method(self, x, name, args, kwargs)
        if r is not None:
            return r
        if x.op == 'ref':
            raise Unsupported('method %s of a %s' % (name, _refs[x].kind))
        return self.opaque_method(x, name, args, kwargs)

    def opaque_method(self, x, name, args, kwargs):
        muts = self.mutators()
        pos = self.canon_method_args(name, args, kwargs)
        if name in self._allm:
            v = app('m:' + name, self.ver(x), *pos)
            self.may_raise(v)
            if name in muts:
                l = self.live()
                if l is TRUE:
                    self.mutate(x, name, pos)
                else:
                    self.branch(l, lambda: self.mutate(x, name, pos))
            return v
        v = app('m:' + name, x, *pos)
        self.may_raise(v)
        return v

    def canon_method_args(self, name, args, kwargs):
        """arguments of a method of an unknown object, in the order of its (unique) repository signature"""
        sigs = []
        for q, (src, tree, path) in self.sources.items():
            for c in ast.walk(tree):
                if isinstance(c, ast.ClassDef):
                    for fn in c.body:
                        if isinstance(fn, ast.FunctionDef) and fn.name == name:
                            sigs.append(fn)
        if sigs and not any(isinstance(a, Star) for a in args):
            best = None
            for fn in sigs:
                st = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list)
                ps = [a.arg for a in fn.args.args][(0 if st else 1):]
                if fn.args.vararg or fn.args.kwarg:
                    continue
                best = ps, fn
                if all(k in ps for k in kwargs):
                    break
            if best:
                ps, fn = best
                vals = dict(zip(ps, args))
                vals.update(kwargs)
                if len(args) <= len(ps) and all(k in ps for k in kwargs):
                    nd = len(fn.args.defaults)
                    for p, d in zip(ps[len(ps) - nd:], fn.args.defaults):
                        if p not in vals and isinstance(d, ast.Constant):
                            vals[p] = K(d.value)
                    if all(p in vals for p in ps):
                        return [self.freeze(vals[p]) for p in ps]
        return self.flat_args(args, kwargs)

    def bind_args(self, fv, args, kwargs):
        """-> dict name -> term, in parameter order"""
        a = fv.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kwargs = dict(kwargs)
        pos = list(args)
        if any(isinstance(x, Star) for x in pos):
            new = []
            for j, x in enumerate(pos):
                if isinstance(x, Star):
                    if a.vararg and len(new) >= len(params):
                        new.append(x)
                        continue
                    need = len(params) - len(new) - (len(pos) - j - 1) - sum(1 for p in params if p in kwargs)
                    if j == len(pos) - 1 and not a.vararg:
                        nd = len(a.defaults)
                        if nd and need > 0:
                            raise Unsupported('star call with defaults')
                        new += [app('at', x.seq, K(i)) for i in range(need)]
                    else:
                        raise Unsupported('star call')
                else:
                    new.append(x)
            pos = new
        for p, v in zip(params, pos):
            out[p] = v
        extra = pos[len(params):]
        bad = False
        if extra and not a.vararg:
            bad = True
        if a.vararg:
            parts = []
            for x in extra:
                parts.append(x.seq if isinstance(x, Star) else mk_seq('tuple', [unit(x)]))
            out[a.vararg.arg] = seq_concat('tuple', *parts) if parts else mk_seq('tuple', [])
        for k in list(kwargs):
            if k in params or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    bad = True
                out[k] = kwargs.pop(k)
        if a.kwarg:
            m = mk_map(None, {})
            star = kwargs.pop('**', None)
            if star is not None:
                m = star
            for k, v in kwargs.items():
                m = self.models.map_set(m, K(k), v)
            out[a.kwarg.arg] = self.new_dict(m)
        elif kwargs:
            bad = True
        nd = len(fv.defaults)
        for p, d in zip(params[len(params) - nd:], fv.defaults):
            if p not in out:
                out[p] = d
        for x, d in zip(a.kwonlyargs, fv.kwdefaults):
            if x.arg not in out and d is not None:
                out[x.arg] = d
        missing = [p for p in params if p not in out]
        if missing or bad:
            return None
        return out

    def call_func(self, ft, fv, args, kwargs):
        if fv.qual in self.boundary or (fv.cls is not None and obj(fv.cls).name + '.' + fv.name in self.boundary):
            return self.boundary_call(fv, args, kwargs)
        if sum(1 for g in self.fnstack if g.node is fv.node) >= 1 + getattr(self, 'rec_depth', 0):
            b = self.bind_args(fv, args, kwargs)
            if b is None:
                return BOT
            if (self.all_const(b) or (self.all_sized(b) or self.counts(fv, b)) and sum(1 for g in self.fnstack if g.node is fv.node) < 12) and len(self.fnstack) < 60:
                pass
            else:
                v = app('rec:' + fv.qual, *[self.freeze(x) for x in b.values()])
                self.may_raise(v)
                return v
        if len(self.fnstack) > 70:
            raise Unsupported('call depth')
        b = self.bind_args(fv, args, kwargs)
        if b is None:
            self.raise_if(TRUE, 'TypeError', K(fv.qual))
            return BOT
        if not fv.ref:
            self.analysed[fv.qual] = (fv.path, fv.node.lineno)
        fr = new_ref('frame', None, fv.name)
        info = _refs[fr]
        info.parent = fv.frame
        info.fn = fv
        if fv.locals is None:
            fv.locals, fv.globals, fv.nonlocals = scan_locals(fv.node)
        info.locals, info.globals, info.nonlocals = fv.locals, fv.globals, fv.nonlocals
        o = dict(b)
        for nm in fv.locals:
            if nm not in o:
                o[nm] = UNDEF
        if fv.is_gen:
            o['$out'] = mk_seq('list', [])
        self.st.heap[fr] = o
        oldf, oldst, oldref, oldloc = self.frame, self.fnstack, self.reference_mode, tm.CUR_LOC[0]
        oldcc = getattr(self, 'cur_class', None)
        oldargs = self.argstack
        self.argstack = oldargs[:len(self.fnstack)] + [b]
        self.frame, self.fnstack = fr, self.fnstack + [fv]
        self.cur_class = fv.cls
        self.reference_mode = fv.ref
        if isinstance(fv.node, ast.Lambda):
            v = self.ev(fv.node.body)
            c = self.st.ctl
        else:
            self.exec_block(fv.node.body)
            c = self.st.ctl
            if fv.is_gen:
                v = seq_retype(self.rd(fr, '$out'), 'gen')
            else:
                v = mapleaves(lambda x: x.args[1] if x.args[0] == 'ret' else (NONE if x is N else BOT), c) if c is not N else NONE
            self.st.ctl = mapleaves(lambda x: x if x.args[0] == 'raise' else N, c) if c is not N else N
        self.frame, self.fnstack, self.reference_mode = oldf, oldst, oldref
        self.argstack = oldargs
        self.cur_class = oldcc
        tm.CUR_LOC[0] = oldloc
        if not fv.captures:
            self.st.heap.pop(fr, None)
        return v

    def all_sized(self, b):
        """some argument is a sequence of known length, none a sequence of unknown length"""
        found = False
        for x in b.values():
            if any(r.op == 'ref' and _refs[r].kind not in ('list',) for r in x.fv):
                continue
            y = self.freeze(x)
            if y.op == 'q':
                if not all(p.op == 'u' for p in y.args[1]):
                    return False
                found = True
        return found
    def counts(self, fv, b):
        """the recursive call changes a constant integer argument"""
        if len(self.argstack) != len(self.fnstack):
            return False
        for g, old in zip(reversed(self.fnstack), reversed(self.argstack)):
            if g.node is fv.node:
                return any(kint(v) is not None and v.op == 'k' and kint(old.get(p, NONE)) is not None and kint(v) != kint(old[p]) for p, v in b.items())
        return False

    def all_const(self, b):
        return all(not v.fv and v.op in ('k', 'q') or v.op == 'fn' for v in b.values())

    def boundary_call(self, fv, args, kwargs):
        b = self.bind_args(fv, args, kwargs)
        if b is None:
            self.raise_if(TRUE, 'TypeError', K(fv.qual))
            return BOT
        key = fv.qual if fv.qual in self.boundary else obj(fv.cls).name + '.' + fv.name
        how = self.boundary[key]
        vals = [self.freeze(x) for x in b.values()]
        if callable(how):
            return how(self, b, vals)
        if how == 'event':
            self.event('$trace:' + fv.qual, *vals)
        t = app('call:' + fv.qual, *vals)
        if how == 'seq':
            self.event('$trace:stages', K(fv.qual), *vals[1:])
            st = self.rd(WORLD, '$stage', K('s0'))
            t = app('call:' + fv.qual, st, *vals[1:])
            self.may_raise(t)
            return t
        self.may_raise(t)
        return t

    def instantiate(self, c, args, kwargs):
        cv = obj(c)
        key = cv.qual if cv.qual in self.boundary else cv.name if cv.name in self.boundary else None
        init = self.class_attr(c, '__init__')
        if key is not None:
            how = self.boundary[key]
            if init is not None and init.op == 'fn':
                b = self.bind_args(obj(init), [NONE] + args, kwargs)
                if b is None:
                    self.raise_if(TRUE, 'TypeError', K(cv.qual))
                    return BOT
                vals = [self.freeze(x) for x in list(b.values())[1:]]
            else:
                vals = self.flat_args(args, kwargs)
            if callable(how):
                return how(self, None, vals)
            t = app('new:' + cv.qual, *vals)
            self.may_raise(t)
            return t
        ext = [b.args[0] for b in self.mro(c) if b.op == 'bi']
        if any(b in INT_EXC for b in ext):
            return rawapp('exc', K(cv.name), *self.flat_args(args, kwargs))
        new = self.class_attr(c, '__new__')
        r = new_ref('dict' if 'dict' in ext else 'inst', c)
        self.st.heap[r] = {'$map': mk_map(None, {})} if 'dict' in ext else {}
        if init is not None:
            self.call(self.bind(init, r, c), args, kwargs)
        elif 'dict' in ext and (args or kwargs):
            self.models.ext_method(self, 'dict', '__init__', r, args, kwargs, True)
        return r

class Star:
    def __init__(self, seq):
        self.seq = seq

CMPDUNDER = {'Lt': ('__lt__', '__gt__'), 'LtE': ('__le__', '__ge__'), 'Gt': ('__gt__', '__lt__'), 'GtE': ('__ge__', '__le__'),
             'Eq': ('__eq__', '__eq__'), 'NotEq': ('__ne__', '__ne__')}
class WhileUnsupported(Unsupported):
    pass

def scan_locals(node):
    loc, glo, non = set(), set(), set()
    if isinstance(node, ast.Lambda):
        for n in _walk_fn(node.body):
            if isinstance(n, ast.NamedExpr):
                loc.add(n.target.id)
        return loc, glo, non
    def walk(n, top=False):
        if not top:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                loc.add(n.name)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for c in ast.walk(n):
                    if isinstance(c, ast.NamedExpr):
                        loc.add(c.target.id)
                return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add(a.asname or a.name.split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in node.body:
        walk(s)
    return loc - glo - non, glo, non

def is_num_like(t):
    return all(is_plain_num(x) or x is BOT for x in leaves(t))

def div_by(x, phi):
    """x / phi when x is a multiple of phi"""
    if x is phi:
        return ONE
    p = as_poly(x)
    out = {}
    for m, c in p.items():
        md = dict(m)
        if md.get(phi) != 1:
            return BOT
        del md[phi]
        out[tuple(sorted(md.items(), key=lambda ae: ae[0].id))] = c
    return tm.from_poly(out)

def mk_first(count, ix, cond):
    n = kint(count)
    return raw_x('first', count, ix, [], [], [cond])

def _region_exit(phi, bound_, step):
    return le(bound_, phi) if step == 1 else le(phi, bound_)

def _bound_in(c, phi, step, allphi):
    """c (exit condition) is implied by  phi >= bound  for a bound free of loop state -> (bound, rest)"""
    found = []
    seen = set()
    def rec(t):
        if t.op != 'n' or t in seen:
            return
        seen.add(t)
        vt, base, br = t.args
        if vt == 'L' and phi in base.fv:
            p = as_poly(base)
            co = p.get(((phi, 1),))
            if co is not None and not any(a is phi for m in p for a, e in m if m != ((phi, 1),)):
                rest = tm.from_poly({m: v for m, v in p.items() if m != ((phi, 1),)})
                if not (rest.fv & allphi):
                    for lab, _ in br:
                        if lab is not None:
                            k, incl = lab
                            # co*phi + rest = k
                            b = mul(K(1 / co), sub(K(k), rest))
                            found.append(b)
                            if incl:
                                found.append(add(b, ONE))
                            found.append(add(b, K(1)))
                            found.append(sub(b, K(1)))
        for _, k in br:
            rec(k)
    rec(c)
    for b in found:
        if kind(b) != 'int' and not isk(b):
            continue
        if implies(_region_exit(phi, b, step), c):
            # the tightest such bound
            prev = sub(b, ONE) if step == 1 else add(b, ONE)
            if not implies(_region_exit(phi, prev, step), c):
                return b, c
    return None

def seq_slice(s, a, b, step=NONE):
    from . import models
    return models.seq_slice(s, a, b, step)

# ---------------------------------------------------------------- structural replacement
def replace_terms(t, m):
    """replace whole subterms"""
    keys = set(m)
    fvs = [k.fv for k in keys]
    memo = {}
    def rec(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        if not any(f <= x.fv for f in fvs):
            memo[x] = x
            return x
        r = rebuild(x, rec)
        memo[x] = r
        return r
    return rec(t)

def replace_objs(t, vers):
    """opaque objects in data positions -> their current version"""
    memo = {}
    fvs = [k.fv for k in vers]
    def rec(x):
        if x in vers:
            return vers[x]
        if x.op == 'a' and x.args[0] == 'v0':
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if not any(f <= x.fv for f in fvs) or x.op in ('k', 's', 'b', 'bi', 'fn', 'cls'):
            memo[x] = x
            return x
        r = rebuild(x, rec)
        memo[x] = r
        return r
    return rec(t)

def rebuild(t, S):
    """t with S applied to its immediate subterms"""
    op = t.op
    if op == 'p':
        r = ZERO
        for mono, c in t.args:
            x = K(c)
            for a, e in mono:
                x = mul(x, power(S(a), e))
            r = add(r, x)
        return r
    if op == 'a':
        args = [S(a) for a in t.args[1:]]
        n = t.args[0]
        if all(x is y for x, y in zip(args, t.args[1:])):
            return t
        if n == 'inv':
            return inv(args[0])
        if n == 'pow':
            return power(*args)
        if n == 'eq':
            return eq(*args)
        if n == 'fmt':
            return fmt(args[0], kval(args[1]))
        if n in ('lt', 'le'):
            return (lt if n == 'lt' else le)(*args)
        return app(n, *args)
    if op == 'u':
        return unit(S(t.args[0]))
    if op == 'sp':
        return splice(S(t.args[0]))
    if op == 'q':
        ps = []
        for p in t.args[1]:
            if p.op == 'x':
                x = S(p)
                ps.append(splice(x) if x.op != 'x' else x)
            else:
                ps.append(S(p))
        return mk_seq(t.args[0], ps)
    if op == 'n':
        vt, base, br = t.args
        nb = S(base)
        ch = [(l, S(c)) for l, c in br]
        if vt == 'B':
            c = nb if nb.op == 'n' or nb in (TRUE, FALSE, BOT) else (truth(nb) if kind(nb) != 'bool' else batom(nb))
            return ite(c, ch[0][1], ch[1][1])
        if vt == 'T':
            return ite(truth(nb), ch[0][1], ch[1][1])
        r = ch[-1][1]
        if vt == 'V':
            for l, c in reversed(ch[:-1]):
                r = ite(eq(nb, l), c, r)
        else:
            for (k, incl), c in reversed(ch[:-1]):
                r = ite((le if incl else lt)(nb, K(k)), c, r)
        return r
    if op == 'x':
        cnt, ix, phis, bd = open_x(t)
        return mk_x(t.args[0], S(t.args[1]), ix, phis, [S(i) for i in t.args[2]], [S(b) for b in bd])
    if op == 'st':
        return strcat(*[S(a) for a in t.args])
    if op == 'map':
        base, items = t.args
        return mk_map(S(base) if base is not None else None, {S(k): S(v) for k, v in items})
    if op == 'set':
        return mk_set(S(t.args[0]))
    if op in tm.REBUILD:
        return tm.REBUILD[op](t, S)
    return t
