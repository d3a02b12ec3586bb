"""Models of the Python builtins and of the libraries the repository uses.

Builtins on containers get their defining equations (so a comprehension, a loop and a call of map/filter/sum/any get the
same value number); everything else is an uninterpreted function of its arguments."""
import ast
import builtins as _builtins
from fractions import Fraction
from . import terms as tm
from .terms import *
from .terms import _intern, Unsupported

EXC = None           # set from interp.INT_EXC

def I():
    from . import interp
    return interp

# ---------------------------------------------------------------- names
ALIAS = {'dill': 'pickle', 'numpy': 'numpy', 'matplotlib.pyplot': 'plt', 'cPickle': 'pickle', '_pickle': 'pickle',
         'mpmath.libmp': 'mpmath', 'builtins': 'builtins'}
CANON = {'decimal.Decimal': 'decimal.Decimal', 'pickle.dumps': 'pickle.dumps', 'mpmath.mpmathify': 'mpmath.mpf',
         'os.path.sep': 'os.sep', 'posixpath.join': 'os.path.join', 'operator.attrgetter': 'operator.attrgetter',
         'sys.exit': 'exit', 'quit': 'exit', 'mpmath.mp.mpf': 'mpmath.mpf', 'mpmath.ln': 'mpmath.log',
         'os.makedirs': 'os.makedirs', 'math.fabs': 'abs', 'math.pow': 'pow', 'mpmath.fabs': 'abs'}
def canon(name):
    if name in ALIAS:
        return ALIAS[name]
    if '.' in name:
        h, t = name.rsplit('.', 1)
        h2 = canon(h)
        if h2 == 'builtins':
            return t
        name = h2 + '.' + t
    return CANON.get(name, name)
def external(dotted):
    n = canon(dotted)
    if n == 'mpmath.inf':
        return K(float('inf'))
    if n in ('mpmath.nan', 'math.nan'):
        return K(float('nan'))
    if n == 'math.inf':
        return K(float('inf'))
    return I().bi(n)

def is_exc(n):
    return n in I().INT_EXC

# ---------------------------------------------------------------- context managers
def enter(it, cm):
    def f(x):
        if x.op == 'ref' and I()._refs[x].cls is not None and it.class_attr(I()._refs[x].cls, '__enter__') is not None:
            return it.call_method(x, '__enter__', [], {})
        return x
    return it.each_leaf(cm, f)
CMS = ('cm:workdps', 'cm:extradps')
def cm_state(it, cm):
    """what leaving a context restores, if entering it changes something global; entering also makes the change"""
    if cm.op == 'a' and cm.args[0] in CMS:
        old = ext_attr(it, I().bi('mpmath.mp'), 'dps')
        n = cm.args[1]
        it.wr(I().WORLD, 'mpmath.mp.dps', n if cm.args[0] == 'cm:workdps' else add(old, n))
        return old
    if any(l.op == 'a' and l.args[0].startswith('cm:') for l in leaves(cm)) and cm.op == 'n':
        raise Unsupported('choice of context managers')
    return None
def exit(it, cm, saved, raised, ctl):
    """run the end of a context; the condition under which it swallows an exception"""
    if saved is not None:
        it.wr(I().WORLD, 'mpmath.mp.dps', saved)
        return FALSE
    def f(x):
        if x.op == 'a' and x.args[0] == 'cm:suppress':
            names = [kval(n) for n in x.args[1:]]
            return cond_of(ctl, lambda c: c.op == 'ctl' and c.args[0] == 'raise' and any(it.exc_sub(it.exc_name(c.args[1]), n) for n in names))
        if x.op == 'ref' and I()._refs[x].cls is not None and it.class_attr(I()._refs[x].cls, '__exit__') is not None:
            def ok():
                it.call_method(x, '__exit__', [NONE, NONE, NONE], {})
                return FALSE
            def bad():
                return it.truth_of(it.call_method(x, '__exit__', [sym('exit:type', '?'), sym('exit:value', '?'), sym('exit:traceback', '?')], {}))
            return it.branch(raised, bad, ok)
        return FALSE
    return it.each_leaf(cm, f)

# ---------------------------------------------------------------- maps
def ground(k):
    return not k.fv and k.op not in ('n', 's') and not (k.op == 'a' and k.args[0] not in ('exc',) and False) and _ground(k)
def _ground(k):
    if k.op in ('k', 'cls', 'fn', 'mod', 'bi'):
        return True
    if k.op == 'q':
        return all(p.op == 'u' and _ground(p.args[0]) for p in k.args[1])
    return False

def map_set(m, k, v):
    def f(mm, kk):
        if mm is BOT or kk is BOT:
            return BOT
        if _ground(kk) and mm.op == 'map':
            return mk_map(mm.args[0], {**dict(mm.args[1]), kk: v})
        if _ground(kk) and not (mm.op == 'a' and mm.args[0] in ('mapset', 'mapdel')):
            return mk_map(mm, {kk: v})
        return lift(lambda vv: app('mapset', mm, kk, vv), v)
    return lift(f, m, k)

@smart('mapset')
def _mapset(m, k, v):
    if m.op == 'map' and _ground(k):
        return map_set(m, k, v)
    # m[k] = m[k] + rest
    if v.op == 'q' and v.args[1] and v.args[1][0].op == 'sp':
        s = v.args[1][0].args[0]
        if s.op == 'a' and s.args[0] in ('mapget', 'mapgetd') and s.args[1] is m and s.args[2] is k:
            if s.args[0] == 'mapgetd':
                return app('mapext', m, k, mk_seq('list', v.args[1][1:]))
    if m.op == 'a' and m.args[0] == 'mapset' and m.args[2] is k:
        return app('mapset', m.args[1], k, v)
    if v.op == 'a' and v.args[0] == 'mapget' and v.args[1] is m and v.args[2] is k:
        return m
    return None

@smart('mapext')
def _mapext(m, k, rest):
    if m.op == 'a' and m.args[0] == 'mapext' and m.args[2] is k:
        return app('mapext', m.args[1], k, seq_concat('list', m.args[3], rest))
    return None

def map_get(m, k):
    return app('mapget', m, k)
@smart('mapget')
def _mapget(m, k):
    if m.op == 'map':
        base, items = m.args
        if _ground(k):
            for kk, v in items:
                if kk is k:
                    return v
            return app('mapget', base, k) if base is not None else BOT
        if k.op in ('k',):
            return None
        if base is None and len(items) <= 80:
            r = BOT
            for kk, v in items:
                r = ite(eq(k, kk), v, r)
            return r
        return None
    if m.op == 'a' and m.args[0] == 'mapset':
        c = eq(k, m.args[2])
        return ite(c, m.args[3], app('mapget', m.args[1], k)) if c is not FALSE else app('mapget', m.args[1], k)
    if m.op == 'a' and m.args[0] == 'mapdel':
        c = eq(k, m.args[2])
        return ite(c, BOT, app('mapget', m.args[1], k))
    return None

def map_in(m, k):
    return app('in', k, m)
@smart('in')
def _in(k, m):
    if m.op == 'map':
        base, items = m.args
        r = app('in', k, base) if base is not None else FALSE
        for kk, v in items:
            r = b_or(eq(k, kk), r)
        return r
    if m.op == 'a' and m.args[0] in ('mapset', 'mapext'):
        return b_or(eq(k, m.args[2]), app('in', k, m.args[1]))
    if m.op == 'a' and m.args[0] == 'mapdel':
        return b_and(b_not(eq(k, m.args[2])), app('in', k, m.args[1]))
    if m.op == 'a' and m.args[0] == 'keys':
        return app('in', k, m.args[1])
    if m.op == 'q':
        return seq_in(k, m)
    if m.op == 'set':
        return app('in', k, m.args[0])
    if isk(m, 'str') and isk(k, 'str'):
        return K(kval(k) in kval(m))
    if m.op == 'a' and m.args[0] in ('sorted', 'reversed', 'list', 'tuple', 'set', 'iter'):
        return app('in', k, m.args[1])
    return None

def seq_in(x, s):
    r = FALSE
    for p in s.args[1]:
        if p.op == 'u':
            r = b_or(r, eq(x, p.args[0]))
        elif p.op == 'sp':
            r = b_or(r, app('in', x, p.args[0]))
        else:
            cnt, ix, _, (bd,) = open_x(p)
            r = b_or(r, mk_x('exists', cnt, ix, [], [], [lift(lambda q: seq_in(x, q), bd)]))
    return r

def finite_chain(x, n=0):
    """x is a short chain of updates of a map with constant keys"""
    if n > 6 or x is BOT:
        return False
    if x.op == 'map':
        return x.args[0] is None or finite_chain(x.args[0], n)
    if x.op == 'n':
        return all(finite_chain(l, n) for l in leaves(x))
    return x.op == 'a' and x.args[0] in ('mapset', 'mapdel') and finite_chain(x.args[1], n + 1)

def finite_keys(x):
    """keys of a finite map in insertion order (a gated sequence)"""
    def go(x):
        if x.op == 'n':
            return lift(go, x)
        if x.op == 'map':
            if x.args[0] is None:
                return mk_seq('list', [unit(k) for k, _ in x.args[1]])
            r, base = go(x.args[0]), x.args[0]
            for k, _ in x.args[1]:
                r = ite(app('in', k, base), r, seq_concat('list', r, mk_seq('list', [unit(k)])))
            return r
        m, k = x.args[1], x.args[2]
        if x.args[0] == 'mapset':
            ks = go(m)
            return ite(app('in', k, m), ks, seq_concat('list', ks, mk_seq('list', [unit(k)])))
        def drop(ks):
            r = mk_seq('list', [])
            for p in ks.args[1]:
                if p.op != 'u':
                    raise Unsupported('deletion from a map of unknown size')
                r = seq_concat('list', r, ite(eq(p.args[0], k), mk_seq('list', []), mk_seq('list', [p])))
            return r
        return lift(drop, go(m))
    return go(x)

def map_keys(m):
    def f(x):
        if x.op == 'a' and finite_chain(x):
            return finite_keys(x)
        if x.op == 'map':
            if x.args[0] is not None and finite_chain(x):
                return finite_keys(x)
            ps = [unit(k) for k, _ in x.args[1]]
            if x.args[0] is not None:
                ps = [splice(app('keys', x))]
            return mk_seq('list', ps)
        return mk_seq('list', [splice(app('keys', x))])
    return lift(f, m)

def map_items(m):
    def f(x):
        if x is BOT:
            return BOT
        if x.op == 'map' and x.args[0] is None:
            return mk_seq('list', [unit(tup(k, v)) for k, v in x.args[1]])
        if finite_chain(x):
            return lift(lambda ks: mk_seq('list', [unit(tup(p.args[0], map_get(x, p.args[0]))) for p in ks.args[1]]), finite_keys(x))
        ks = app('keys', x)
        ix = fresh('ix', 'int')
        return mk_x('flat', app('len', ks), ix, [], [], [mk_seq('list', [unit(tup(app('at', ks, ix), app('mapget', x, app('at', ks, ix))))])])
    return lift(f, m)

@smart('keys')
def _keys(m):
    if m.op == 'a' and m.args[0] == 'mapof' and False:
        return None
    return None

def map_update(m, m2):
    def f(a, b):
        if b.op == 'map':
            r = a if b.args[0] is None else app('mapupd', a, b.args[0])
            for k, v in b.args[1]:
                r = map_set(r, k, v)
            return r
        if a.op == 'map' and a.args[0] is None and not a.args[1]:
            return b
        if finite_chain(b):
            def put(ks):
                r = a
                for p in ks.args[1]:
                    r = map_set(r, p.args[0], map_get(b, p.args[0]))
                return r
            return lift(put, finite_keys(b))
        return app('mapupd', a, b)
    return lift(f, m, m2)

def map_of_pairs(it, init, seq):
    def f(i, s):
        if s is BOT:
            return BOT
        if s.op == 'q' and all(p.op == 'u' for p in s.args[1]):
            r = i
            for p in s.args[1]:
                r = map_set(r, app('at', p.args[0], ZERO), app('at', p.args[0], ONE))
            return r
        return app('mapof', i, seq_retype(s, 'list'))
    return lift(f, init, seq)

# a gate on membership with both sides building the extended list
def _recog_in(base, hi, lo):
    if base.op == 'a' and base.args[0] == 'in' and hi.op == 'a' and lo.op == 'a' and hi.args[0] == 'mapset' and lo.args[0] == 'mapset':
        k, m = base.args[1], base.args[2]
        if hi.args[1] is m and lo.args[1] is m and hi.args[2] is k and lo.args[2] is k:
            v, w = hi.args[3], lo.args[3]
            if v.op == 'q' and v.args[1] and v.args[1][0].op == 'sp':
                s = v.args[1][0].args[0]
                if s.op == 'a' and s.args[0] == 'mapget' and s.args[1] is m and s.args[2] is k and \
                        mk_seq('list', v.args[1][1:]) is w:
                    return app('mapext', m, k, w)
    if base.op == 'a' and base.args[0] == 'in' and hi.op == 'a' and hi.args[0] == 'mapget' and hi.args[1] is base.args[2] and \
            hi.args[2] is base.args[1]:
        if lo.op == 'q' and not lo.args[1]:
            return app('mapgetd', base.args[2], base.args[1])
    return None
tm.RECOG_B = _recog_in

# ---------------------------------------------------------------- strings
def join_(sep, seq):
    def f(sp, s):
        if s is BOT:
            return BOT
        if s.op == 'q' and all(p.op == 'u' for p in s.args[1]):
            parts = []
            for i, p in enumerate(s.args[1]):
                if i:
                    parts.append(sp)
                parts.append(p.args[0])
            return strcat(*parts) if parts else K('')
        if isk(sp, 'str') and kval(sp) == '' and s.op == 'q' and len(s.args[1]) > 1:
            return strcat(*[join_(sp, mk_seq('list', [p])) for p in s.args[1]])
        return app('join', sp, mk_seq('list', as_pieces(s)))
    return lift(f, sep, seq)

def repr_(it, v):
    v = it.freeze(v)
    def f(x):
        if isk(x, 'str'):
            return K(repr(kval(x)))
        if kind(x) in ('int', 'num') or isk(x):
            return fmt(x, '')
        if x.op == 'q':
            return container_str(it, x)
        return app('repr', x)
    return lift(f, v)

def container_str(it, x):
    if x.op == 'q' and all(p.op == 'u' for p in x.args[1]) and x.args[0] in ('list', 'tuple'):
        o, c = '[]' if x.args[0] == 'list' else '()'
        parts = [K(o)]
        for i, p in enumerate(x.args[1]):
            if i:
                parts.append(K(', '))
            parts.append(repr_(it, p.args[0]))
        if x.args[0] == 'tuple' and len(x.args[1]) == 1:
            parts.append(K(','))
        return strcat(*parts, K(c))
    return app('fmt', x, K(''))

def str_(it, v):
    v = str_obj(it, v)
    def f(x):
        if kind(x) == 'str':
            return x
        if x.op == 'q':
            return container_str(it, x)
        if x.op == 'a' and x.args[0] == 'exc' and len(x.args) == 3:
            return str_(it, x.args[2])
        return fmt(x, '')
    return lift(f, v)

def str_obj(it, v):
    def f(x):
        if x.op == 'ref' and I()._refs[x].cls is not None:
            for nm in ('__str__', '__repr__'):
                if it.class_attr(I()._refs[x].cls, nm) is not None:
                    return it.call_method(x, nm, [], {})
        if x.op == 'cls':
            for c in it.mro(x):
                m = I().obj(c).meta if c.op == 'cls' else None
                if m is not None and m.op == 'cls':
                    g = it.class_attr(m, '__str__')
                    if g is not None:
                        return it.call(g, [x], {})
                    break
        return it.freeze(x)
    if any(l.op in ('ref', 'cls') for l in leaves(v)):
        return it.each_leaf(v, f)
    return it.freeze(v)

def format_(it, v, spec):
    v = str_obj(it, v)
    def f(x):
        if spec in ('', 's') :
            return str_(it, x)
        if isk(x, 'str') and spec:
            try:
                return K(format(kval(x), spec))
            except ValueError:
                return BOT
        return fmt(x, spec)
    return lift(f, v)

def str_format(it, s, args, kwargs):
    import string
    parts = []
    auto = 0
    try:
        items = list(string.Formatter().parse(s))
    except ValueError:
        return BOT
    for lit, field, spec, conv in items:
        if lit:
            parts.append(K(lit))
        if field is None:
            continue
        name = field
        if name == '':
            name = str(auto)
            auto += 1
        import re
        m = re.match(r'^(\w+)((?:\.\w+|\[\w+\])*)$', name)
        if not m:
            raise Unsupported('format field %r' % name)
        base, rest = m.groups()
        if base.isdigit():
            i = int(base)
            flat = []
            for a in args:
                if isinstance(a, I().Star):
                    flat.append(app('at', a.seq, K(i - len(flat))))
                    if len(flat) <= i:
                        flat += [app('at', a.seq, K(j)) for j in range(1, i + 1)]
                else:
                    flat.append(a)
            if i >= len(flat):
                it.raise_if(TRUE, 'IndexError')
                return BOT
            v = flat[i]
        else:
            if base not in kwargs:
                it.raise_if(TRUE, 'KeyError')
                return BOT
            v = kwargs[base]
        for r in re.findall(r'\.(\w+)|\[(\w+)\]', rest):
            v = it.getattr_(v, r[0]) if r[0] else it.getitem(v, K(int(r[1])) if r[1].isdigit() else K(r[1]))
        if spec and '{' in spec:
            raise Unsupported('nested format')
        parts.append(repr_(it, v) if conv == 'r' else format_(it, v, spec))
    return strcat(*parts) if parts else K('')

def percent(it, s, arg):
    import re
    if not isk(s, 'str'):
        return app('percent', s, it.freeze(arg))
    vals = None
    parts = []
    pos = 0
    n = 0
    specs = list(re.finditer(r'%(\(\w+\))?([-+ 0#]*)(\d+|\*)?(\.\d+)?([diouxXeEfFgGcrsa%])', kval(s)))
    cnt = sum(1 for m in specs if m.group(5) != '%')
    tupv = arg.op == 'q' and arg.args[0] == 'tuple'
    for m in specs:
        if m.start() > pos:
            parts.append(K(kval(s)[pos:m.start()]))
        pos = m.end()
        if m.group(5) == '%':
            parts.append(K('%'))
            continue
        if m.group(1):
            v = it.getitem(arg, K(m.group(1)[1:-1]))
        elif tupv:
            if n >= len(arg.args[1]):
                it.raise_if(TRUE, 'TypeError')
                return BOT
            v = arg.args[1][n].args[0]
        elif cnt == 1 and kind(arg) != 'tuple':
            v = arg
        else:
            v = app('at', arg, K(n))
        n += 1
        ty = m.group(5)
        spec = (m.group(2) or '') + (m.group(3) or '') + (m.group(4) or '')
        if ty == 'r':
            parts.append(repr_(it, v))
        elif ty == 's':
            parts.append(format_(it, v, spec))
        else:
            parts.append(format_(it, v, spec + ('d' if ty in 'iu' else ty)))
    if pos < len(kval(s)):
        parts.append(K(kval(s)[pos:]))
    return strcat(*parts) if parts else K('')

# ---------------------------------------------------------------- operators
DUNDER = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'),
          'Div': ('__truediv__', '__rtruediv__'), 'FloorDiv': ('__floordiv__', '__rfloordiv__'),
          'Mod': ('__mod__', '__rmod__'), 'Pow': ('__pow__', '__rpow__'), 'BitOr': ('__or__', '__ror__'),
          'BitAnd': ('__and__', '__rand__'), 'BitXor': ('__xor__', '__rxor__')}
def ptype(x):
    """the Python type of a value as far as it is certain: none, num, str, seq, dict, set (None: not known)"""
    if x.op == 'k':
        return {'none': 'none', 'str': 'str', 'num': 'num', 'bool': 'num'}.get(x.args[0])
    if x.op == 'st':
        return 'str'
    if x.op == 'q':
        return 'seq'
    if x.op == 'map':
        return 'dict'
    if x.op == 'set':
        return 'set'
    if x.op == 'ref':
        info = I()._refs[x]
        return {'list': 'seq', 'dict': 'dict', 'set': 'set'}.get(info.kind) if info.cls is None else None
    if x.op in ('s', 'p') and kind(x) in ('int', 'num', 'bool'):
        return 'num'
    if x.op == 's' and kind(x) == 'str':
        return 'str'
    return None

def ill_typed(name, x, y):
    """the operation is a TypeError on operands of these types"""
    tx, ty = ptype(x), ptype(y)
    if tx is None or ty is None or name == 'Mod' and tx == 'str':
        return False
    if 'none' in (tx, ty):
        return True
    if tx == ty == 'num':
        return False
    if name == 'Add':
        return tx != ty or tx in ('dict', 'set')
    if name == 'Mult':
        return {tx, ty} not in ({'num', 'str'}, {'num', 'seq'})
    if name in ('Sub', 'BitAnd', 'BitOr', 'BitXor'):
        return 'num' in (tx, ty) or 'str' in (tx, ty)
    if name in ('Div', 'FloorDiv', 'Mod', 'Pow', 'LShift', 'RShift'):
        return True
    return False

def unordered(x, y):
    """< is a TypeError on operands of these types"""
    tx, ty = ptype(x), ptype(y)
    return tx is not None and ty is not None and (tx != ty and {tx, ty} != {'seq', 'set'} or tx in ('none', 'dict'))

def type_errors(it, test, *vals):
    """raise TypeError where the test of the leaves is true; the condition under which it is not, or None when it is nowhere true"""
    ls = [leaves(v) for v in vals]
    if all(len(l) == 1 for l in ls):
        bad = K(bool(test(*[l[0] for l in ls])))
    else:
        if not any(ptype(x) not in (None, 'num') for l in ls for x in l):
            return None
        bad = lift(lambda *xs: FALSE if any(x is BOT or x is UNDEF for x in xs) else K(bool(test(*xs))), *vals)
    if bad is FALSE:
        return None
    c = cond_of(bad, lambda x: x is TRUE)
    if c is FALSE:
        return None
    it.raise_if(c, 'TypeError')
    return b_not(c)

def binop(it, name, a, b):
    ok = type_errors(it, lambda x, y: ill_typed(name, x, y), a, b)
    if ok is not None:
        if ok is FALSE:
            return BOT
        a, b = under(a, ok), under(b, ok)
    if any(x.op in ('ref', 'inst') for x in leaves(a)) or any(x.op in ('ref', 'inst') for x in leaves(b)):
        return it.each_leaf(a, lambda x: it.each_leaf(b, lambda y: binop_ref(it, name, x, y)))
    if name in ('Div', 'FloorDiv', 'Mod') and it.handlers:
        if any('ZeroDivisionError' in h or 'ArithmeticError' in h or 'Exception' in h or 'BaseException' in h for h in it.handlers):
            z = lift(lambda x, y: eq(y, ZERO) if kind(x) != 'str' else FALSE, a, b)
            if z is not FALSE and z is not BOT:
                it.raise_if(cond_of(z, lambda x: x is TRUE), 'ZeroDivisionError')
    if name == 'Mod' and any(kind(x) == 'str' for x in leaves(a)):
        return it.each_leaf(a, lambda x: percent(it, x, it.freeze(b)) if kind(x) == 'str' else app('mod', x, b))
    return lift(lambda x, y: binop1(it, name, x, y), a, b)

def listlike(it, x):
    return x.op == 'ref' and I()._refs[x].kind == 'list'

def binop_ref(it, name, x, y):
    R = I()._refs
    if x is BOT or y is BOT:
        return BOT
    for z, dn in ((x, DUNDER.get(name, ('', ''))[0]), (y, DUNDER.get(name, ('', ''))[1])):
        if z.op == 'inst':
            z = it.thaw(z)
        if z.op == 'ref' and R[z].cls is not None and it.class_attr(R[z].cls, dn) is not None:
            other = y if dn == DUNDER[name][0] else x
            return it.call_method(z, dn, [other], {})
    if name == 'Add' and (listlike(it, x) or listlike(it, y)):
        return it.new_list(seq_concat('list', it.as_seq(x), it.as_seq(y)))
    if name == 'Mult':
        if listlike(it, y):
            x, y = y, x
        if listlike(it, x):
            return it.new_list(seq_repeat(it.rd(x, '$seq'), y))
    if R.get(x) is not None and R[x].kind == 'set' or R.get(y) is not None and R[y].kind == 'set':
        a, b = it.as_seq(x), it.as_seq(y)
        if name == 'BitOr':
            return it.new_set(seq_concat('list', a, b))
        if name in ('Sub', 'BitAnd'):
            r = collect_filter(it, a, lambda e: lift(lambda bb: seq_in(e, bb) if bb.op == 'q' else app('in', e, bb), b) if name == 'BitAnd' else
                               b_not(lift(lambda bb: seq_in(e, bb), b)))
            return it.new_set(r)
    if name == 'Mod' and kind(x) == 'str':
        return percent(it, x, it.freeze(y))
    return lift(lambda a, b: binop1(it, name, a, b), it.freeze(x), it.freeze(y))

def seq_repeat(s, n):
    def f(ss, nn):
        k = kint(nn)
        if k is not None:
            if k <= 0:
                return mk_seq('list' if ss.op != 'q' else ss.args[0], [])
            if k * len(as_pieces(ss)) <= 64:
                return mk_seq(ss.args[0] if ss.op == 'q' else 'list', as_pieces(ss) * k)
        ix = fresh('ix', 'int')
        return mk_x('flat', nonneg(nn), ix, [], [], [mk_seq('list', as_pieces(ss))])
    return lift(f, s, n)

def nonneg(n):
    return lift(lambda x: x if is_nonneg(x) else app('max', ZERO, x), n)

def binop1(it, name, x, y):
    if x is BOT or y is BOT or x is UNDEF or y is UNDEF:
        return BOT
    kx, ky = kind(x), kind(y)
    if name == 'Add':
        if kx == 'str' or ky == 'str':
            return strcat(x, y)
        if x.op == 'q' or y.op == 'q' or kx in ('list', 'tuple') or ky in ('list', 'tuple'):
            return mk_seq(x.args[0] if x.op == 'q' else y.args[0] if y.op == 'q' else kx, as_pieces(x) + as_pieces(y))
        return add(x, y)
    if name == 'Sub':
        return sub(x, y)
    if name == 'Mult':
        if ky == 'str' or y.op == 'q':
            x, y, kx, ky = y, x, ky, kx
        if x.op == 'q':
            return seq_repeat(x, y)
        if kx == 'str':
            n = kint(y)
            if isk(x, 'str') and n is not None:
                return K(kval(x) * n)
            return app('strmul', x, y)
        return mul(x, y)
    if name == 'Div':
        return div(x, y)
    if name == 'FloorDiv':
        return app('floordiv', x, y)
    if name == 'Mod':
        return app('mod', x, y)
    if name == 'Pow':
        return power(x, y)
    if name in ('LShift', 'RShift', 'BitAnd', 'BitOr', 'BitXor'):
        a, b = kint(x), kint(y)
        if a is not None and b is not None and b < 4096:
            return K({'LShift': lambda: a << b, 'RShift': lambda: a >> b, 'BitAnd': lambda: a & b,
                      'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b}[name]())
        if name in ('BitAnd', 'BitOr') and kx == 'bool' and ky == 'bool':
            return b_and(truth(x), truth(y)) if name == 'BitAnd' else b_or(truth(x), truth(y))
        return app(name.lower(), x, y)
    raise Unsupported('operator %s' % name)

def is_(it, x, y):
    if x is BOT or y is BOT:
        return BOT
    if x is y:
        return TRUE
    for a, b in ((x, y), (y, x)):
        if b is NONE:
            if a.op in ('ref', 'inst', 'q', 'cls', 'fn', 'bm', 'bi', 'st', 'map', 'mod') or (a.op == 'a' and a.args[0] == 'exc'):
                return FALSE
            return eq(a, b)
        if b in (TRUE, FALSE):
            if kind(a) == 'bool':
                return eq(a, b)
            if a.op in ('ref', 'inst', 'q') or isk(a):
                return FALSE
            return node('V', a, [(b, TRUE), (None, FALSE)])
    if x.op == 'ref' and y.op == 'ref':
        return FALSE
    if x.op in ('cls', 'bi', 'fn') or y.op in ('cls', 'bi', 'fn'):
        return eq(x, y)
    return eq(x, y)

# ---------------------------------------------------------------- iteration
def iter_of(it, x):
    R = I()._refs
    if x is BOT or x is UNDEF:
        return BOT
    if x.op == 'ref':
        info = R[x]
        if info.kind == 'list':
            return it.rd(x, '$seq')
        if info.cls is not None:
            f = it.class_attr(info.cls, '__iter__')
            if f is not None:
                return it.as_seq(it.call(it.bind(f, x, info.cls), [], {}))
            if info.kind == 'dict':
                return map_keys(it.rd(x, '$map'))
            raise Unsupported('iteration over an object')
        if info.kind == 'dict':
            return map_keys(it.rd(x, '$map'))
        if info.kind == 'set':
            return set_seq(it.rd(x, '$set'))
        return mk_seq('list', [splice(x)])
    if x.op == 'q':
        return x
    if isk(x, 'str'):
        return mk_seq('list', [unit(K(c)) for c in kval(x)])
    if x.op == 'map':
        return map_keys(x)
    if x.op == 'set':
        return set_seq(x.args[0])
    if x.op == 'k' or ptype(x) == 'num':
        it.raise_if(TRUE, 'TypeError')
        return BOT
    if kind(x) == 'map':
        return mk_seq('list', [splice(app('keys', x))])
    return mk_seq('list', [splice(x)])

def set_seq(s):
    def f(x):
        m = mk_set(x)
        if m.op == 'set':
            q = m.args[0]
            if all(p.op == 'u' and not p.args[0].fv and p.args[0].op in ('k', 'cls', 'q') for p in q.args[1]) and \
                    all(eq(a.args[0], b.args[0]) is FALSE for i, a in enumerate(q.args[1]) for b in q.args[1][:i] if a.args[0].op == 'q'):
                return q
        return mk_seq('list', [splice(m)])
    return lift(f, s)

def collect(it, src, f):
    """[f(x) for x in src] with f run by the interpreter"""
    r = it.new_list(mk_seq('list', []))
    def body(x):
        v = f(x)
        it.wr(r, '$seq', seq_concat('list', it.rd(r, '$seq'), mk_seq('list', [unit(v)])))
    it.iterate(src, body)
    out = it.rd(r, '$seq')
    it.st.heap.pop(r, None)
    return out

def collect_filter(it, src, cond, g=None):
    r = it.new_list(mk_seq('list', []))
    def body(x):
        c = cond(x)
        def put():
            it.wr(r, '$seq', seq_concat('list', it.rd(r, '$seq'), mk_seq('list', [unit(x)])))
        it.branch(c, put)
    it.iterate(src, body)
    out = it.rd(r, '$seq')
    it.st.heap.pop(r, None)
    return out

def lam(it, f, n=1):
    """normal form of a callable: a binder over fresh arguments"""
    def g(x):
        if x.op in ('fn', 'bm') or x.op == 'a' and x.args[0] == 'partial':
            args = [fresh('arg') for _ in range(n)]
            try:
                st = it.st
                saved = I().State(dict(st.heap), st.ctl, st.pc)
                v = it.freeze(it.call(x, list(args), {}))
                it.st = saved
            except Unsupported:
                return it.freeze(x)
            return raw_x('lam', ONE, fresh('ix', 'int'), args, [NONE] * n, [v])
        return it.freeze(x)
    return lift(g, f)

# ---------------------------------------------------------------- subscripts
def has_cls(x):
    return x.op == 'ref' and I()._refs[x].cls is not None

def getitem(it, x, k):
    R = I()._refs
    if x is BOT or x is UNDEF:
        return BOT
    if any(l.op == 'a' and l.args[0] == 'sliceobj' for l in leaves(k)):
        return it.each_leaf(k, lambda kk: it.slice_(x, *kk.args[1:]))
    if x.op == 'ref':
        info = R[x]
        if info.cls is not None:
            f = it.class_attr(info.cls, '__getitem__')
            if f is not None:
                return it.call(it.bind(f, x, info.cls), [k], {})
            if info.kind == 'dict':
                return dict_get(it, x, k)
            return ext_method(it, '?', '__getitem__', x, [k], {}, False)
        if info.kind == 'list':
            if ptype(k) in ('none', 'str', 'seq', 'dict'):
                it.raise_if(TRUE, 'TypeError')
                return BOT
            v = app('at', it.rd(x, '$seq'), k)
            bad = cond_of(v, lambda l: l.op == 'a' and l.args[0] == 'indexerror')
            if bad is not FALSE:
                it.raise_if(bad, 'IndexError')
                if bad is TRUE:
                    return BOT
                v = under(v, b_not(bad))
            note_origin(it, v, x, k)
            return v
        if info.kind == 'dict':
            return dict_get(it, x, k)
        raise Unsupported('subscript of %s' % info.kind)
    if x.op == 'inst':
        return getitem(it, it.thaw(x), k)
    if ptype(x) in ('none', 'num', 'set') or x.op == 'q' and x.args[0] in ('view', 'gen') or ptype(x) in ('seq', 'str') and ptype(k) in ('none', 'str', 'seq', 'dict'):
        it.raise_if(TRUE, 'TypeError')
        return BOT
    k = it.freeze(k)
    if x.op == 'bi' :
        if x.args[0] == 'sys.modules':
            def f(kk):
                if isk(kk, 'str') and kval(kk) in it.modules:
                    return I().regobj('mod', it.modules[kval(kk)], it.modules[kval(kk)])
                return rawapp('mod?', kk)
            return lift(f, k)
        return app('getitem', x, k)
    if x.op == 'cls':
        return app('getitem', x, k)
    if x.op == 'map' or kind(x) == 'map':
        return keyed(it, x, k)
    if x in it.st.heap[I().OST]:
        t = app('getitem', it.ver(x), k)
        it.may_raise(t)
        return t
    def f(kk):
        if kind(kk) == 'str':
            t = app('mapget', x, kk)
            return t
        return app('at', x, kk)
    t = lift(f, k)
    if x.op == 'q':
        bad = cond_of(t, lambda l: l.op == 'a' and l.args[0] == 'indexerror')
        if bad is not FALSE:
            it.raise_if(bad, 'IndexError')
            t = under(t, b_not(bad)) if bad is not TRUE else BOT
    elif any('KeyError' in h or 'LookupError' in h or 'IndexError' in h for h in it.handlers):
        it.may_raise(t)
    return t

def keyed(it, m, k):
    if any('KeyError' in h or 'LookupError' in h or 'Exception' in h or 'BaseException' in h for h in it.handlers):
        c = lift(lambda mm, kk: map_in(mm, kk), m, k)
        c = cond_of(c, lambda x: x is TRUE)
        it.raise_if(b_not(c), 'KeyError', k)
        l = it.live()
        if l is not TRUE:
            return under(map_get(m, k), b_and(l, c)) if b_and(l, c) is not FALSE else BOT
    v = map_get(m, k)
    if v is BOT:
        it.raise_if(TRUE, 'KeyError', k)
    return v

def dict_get(it, x, k):
    factory = I()._refs[x].default
    if factory is not None:
        return dict_method(it, x, 'setdefault', [k, it.call(factory, [], {})], {})
    k = it.freeze(k)
    m = it.rd(x, '$map')
    v = keyed(it, m, k)
    note_origin(it, v, x, k)
    return v

def note_origin(it, v, x, k):
    for l in leaves(v):
        if l.op == 'a' or l.op == 'q':
            it.origin[l] = (x, k)

def setitem(it, x, k, v):
    R = I()._refs
    if x is BOT:
        return NONE
    if x.op == 'ref':
        info = R[x]
        if info.cls is not None:
            f = it.class_attr(info.cls, '__setitem__')
            if f is not None:
                return it.call(it.bind(f, x, info.cls), [k, v], {})
            if info.kind == 'dict':
                return ext_method(it, 'dict', '__setitem__', x, [k, v], {}, True)
            return ext_method(it, '?', '__setitem__', x, [k, v], {}, False)
        if info.kind == 'list':
            s = it.rd(x, '$seq')
            it.wr(x, '$seq', slice_put(it, s, k, v) if is_slice(k) else seq_put(s, k, v))
            return NONE
        if info.kind == 'dict':
            it.wr(x, '$map', map_set(it.rd(x, '$map'), it.freeze(k), v))
            return NONE
        raise Unsupported('item store to %s' % info.kind)
    if x.op == 'bi':
        it.wr(I().WORLD, x.args[0] + '[]', map_set(it.rd(I().WORLD, x.args[0] + '[]', mk_map(None, {})), it.freeze(k), v))
        return NONE
    if ptype(x) in ('none', 'num', 'str') or x.op == 'q' and x.args[0] in ('tuple', 'gen', 'range', 'view') and x not in it.origin:
        it.raise_if(TRUE, 'TypeError')
        return NONE
    if x in it.origin:
        r, kk = it.origin[x]
        cur = it.getitem(r, kk)
        new = lift(lambda c: slice_put(it, c, k, v) if is_slice(k) else seq_put(c, k, v) if c.op == 'q' or kind(c) == 'list' else map_set(c, it.freeze(k), v), cur)
        it.setitem(r, kk, new)
        return NONE
    it.mutate(x, 'setitem', [k, v])
    return NONE

def is_slice(k):
    return k.op == 'a' and k.args[0] == 'sliceobj'

def slice_put(it, s, k, v):
    """the list s with the part k replaced by the elements of v"""
    a, b, c = k.args[1:]
    na, nb = (kint(a) if a is not NONE else 0), (kint(b) if b is not NONE else None)
    if c is not NONE and kint(c) != 1:
        raise Unsupported('store to an extended slice')
    if not (na == 0 or b is NONE or (na is not None and nb is not None and na <= nb and (na < 0) == (nb < 0))):
        raise Unsupported('store to a slice that may be reversed')
    new = lift(lambda q: mk_seq('list', as_pieces(q)), it.as_seq(v))
    parts = [] if na == 0 else [seq_slice(s, NONE, a)]
    parts.append(new)
    if b is not NONE:
        parts.append(seq_slice(s, b, NONE))
    return seq_concat('list', *parts)

def put_const(ss, kk, v):
    n = kint(kk)
    if ss.op == 'q' and n is not None:
        ps = list(ss.args[1])
        if n >= 0 and all(p.op == 'u' for p in ps[:n + 1]) and n < len(ps):
            ps[n] = unit(v)
            return mk_seq(ss.args[0], ps)
        if n < 0 and -n <= len(ps) and all(p.op == 'u' for p in ps[n:]):
            ps[n] = unit(v)
            return mk_seq(ss.args[0], ps)
    return None

def seq_put(s, k, v):
    def f(ss, kk):
        r = put_const(ss, kk, v)
        if r is not None:
            return r
        return lift(lambda vv: app('seqset', ss, kk, vv), v)
    return lift(f, s, k)

@smart('seqset')
def _seqset(s, k, v):
    return put_const(s, k, v)
tm.KIND_APP['seqset'] = lambda s, k, v: kind(s)
for _n in ('sorted', 'reversed_', 'slice', 'splitlist'):
    tm.KIND_APP[_n] = 'list'
tm.KIND_APP['keys'] = 'list'
for _n in ('mapset', 'mapdel', 'mapof', 'mapupd', 'mapext', 'mapextall'):
    tm.KIND_APP[_n] = 'map'
tm.KIND_APP['mapgetd'] = 'list'

_orig_len = SMART['len']
def _len2(s):
    if s.op == 'a' and s.args[0] in ('mapset', 'mapdel') and finite_chain(s) or s.op == 'map' and s.args[0] is not None and finite_chain(s):
        return lift(lambda q: K(len(q.args[1])), finite_keys(s))
    if s.op == 'a':
        if s.args[0] in ('sorted', 'reversed_', 'iter', 'list', 'tuple'):
            return app('len', s.args[1])
        if s.args[0] == 'seqset':
            return app('len', s.args[1])
        if s.args[0] == 'keys':
            return app('len', s.args[1]) if s.args[1].op == 'map' and s.args[1].args[0] is None else None
        if s.args[0] == 'slice':
            src, a, b = s.args[1:]
            if b is NONE:
                return nonneg(sub(app('len', src), a))
            return None
        if s.args[0] == 'divmod':
            return K(2)
    return _orig_len(s)
SMART['len'] = _len2

_orig_at = SMART['at']
def _at2(s, i):
    if s.op == 'a':
        if s.args[0] == 'seqset':
            return ite(eq(i, s.args[2]), s.args[3], app('at', s.args[1], i))
        if s.args[0] == 'slice':
            src, a, b = s.args[1:]
            n = kint(i)
            if n is None or n >= 0:
                return app('at', src, add(a, i))
        if s.args[0] == 'iter':
            return app('at', s.args[1], i)
    if s.op in ('map',) or kind(s) == 'map':
        return app('mapget', s, i)
    return _orig_at(s, i)
SMART['at'] = _at2

def slice_(it, x, a, b, c):
    if x is BOT:
        return BOT
    if x.op == 'ref':
        info = I()._refs[x]
        if info.kind == 'list':
            return it.new_list(seq_slice(it.rd(x, '$seq'), a, b, c))
        if info.cls is not None:
            f = it.class_attr(info.cls, '__getitem__')
            if f is not None:
                return it.call(it.bind(f, x, info.cls), [rawapp('sliceobj', a, b, c)], {})
        raise Unsupported('slice of %s' % info.kind)
    return lift(lambda y: seq_slice(y, a, b, c), x)

def seq_slice(s, a, b, step=NONE):
    return lift(_seq_slice, s, a, b, step)
def _seq_slice(s, a, b, step):
    if s is BOT or a is BOT or b is BOT:
        return BOT
    st = kint(step) if step is not NONE else 1
    na = 0 if a is NONE else kint(a)
    nb = None if b is NONE else kint(b)
    if isk(s, 'str') and st is not None and (a is NONE or na is not None) and (b is NONE or nb is not None):
        return K(kval(s)[(na if a is not NONE else None):(nb if b is not NONE else None):st])
    if kind(s) == 'str':
        return app('slice_str', s, a if a is not NONE else ZERO, b, step)
    if st == -1 and a is NONE and b is NONE:
        return seq_reverse(s)
    if st is None:
        return app('slicestep', s, a, b, step)
    ps = as_pieces(s)
    ty = s.args[0] if s.op == 'q' else ('list' if kind(s) not in ('tuple',) else 'tuple')
    if all(p.op == 'u' for p in ps) and (a is NONE or na is not None) and (b is NONE or nb is not None):
        return mk_seq(ty, ps[(na if a is not NONE else None):(nb if b is not NONE else None):st])
    if st != 1:
        if st > 0 and na is not None and na >= 0 and b is NONE:
            # elements na, na+st, ...
            ln = app('len', s)
            ix = fresh('ix', 'int')
            cnt = nonneg(app('floordiv', add(sub(ln, K(na)), K(st - 1)), K(st)))
            return mk_seq(ty, as_pieces(mk_x('flat', cnt, ix, [], [], [mk_seq('list', [unit(app('at', s, add(K(na), mul(K(st), ix))))])])))
        return app('slicestep', s, a, b, step)
    if b is NONE and na == 0:
        return mk_seq(ty, ps)
    # drop a unit prefix
    if na is not None and na >= 0:
        k = 0
        while k < na and k < len(ps) and ps[k].op == 'u':
            k += 1
        if k:
            ps2 = ps[k:]
            if b is NONE:
                return _seq_slice(mk_seq(ty, ps2), K(na - k), NONE, NONE)
            if nb is not None and nb >= 0:
                return _seq_slice(mk_seq(ty, ps2), K(na - k), K(max(nb - k, 0)), NONE)
            if nb is not None and nb < 0:
                return _seq_slice(mk_seq(ty, ps2), K(na - k), b, NONE)
            if nb is None:
                return _seq_slice(mk_seq(ty, ps2), K(na - k), sub(b, K(k)), NONE)
    # keep a unit prefix
    if na == 0 and nb is not None and nb >= 0 and all(p.op == 'u' for p in ps[:nb]) and len(ps) >= nb:
        return mk_seq(ty, ps[:nb])
    # drop a unit suffix
    if nb is not None and nb < 0:
        k = 0
        while k < -nb and k < len(ps) and ps[-1 - k].op == 'u':
            k += 1
        if k == -nb:
            return _seq_slice(mk_seq(ty, ps[:-k]), a, NONE, NONE)
    if na is not None and na < 0 and b is NONE and all(p.op == 'u' for p in ps[na:]) and len(ps) >= -na:
        return mk_seq(ty, ps[na:])
    if len(ps) == 1 and ps[0].op == 'x' and (na is not None and na >= 0 or a is not NONE and kind(a) == 'int' and is_nonneg(a)):
        sf = simple_flat(ps[0])
        if sf:
            cnt, ix, el = sf
            aa = ZERO if a is NONE else a
            if b is NONE:
                n = nonneg(sub(cnt, aa))
            elif nb is not None and nb < 0:
                n = nonneg(sub(add(cnt, b), aa))
            elif is_nonneg(b):
                n = nonneg(sub(app('min', cnt, b), aa))
            else:
                n = None
            if n is not None:
                return mk_seq(ty, as_pieces(mk_x('flat', n, ix, [], [], [mk_seq('list', [unit(subst(el, {ix: add(ix, aa)}))])])))
    src = ps[0].args[0] if len(ps) == 1 and ps[0].op == 'sp' else s
    if b is not NONE and nb is not None and nb < 0:
        b = add(app('len', src), b)
    if src.op == 'a' and src.args[0] == 'slice' and src.args[3] is NONE and b is NONE and na is not None and na >= 0:
        return mk_seq(ty, [splice(rawapp('slice', src.args[1], add(src.args[2], K(na)), NONE))])
    return mk_seq(ty, [splice(rawapp('slice', src, ZERO if a is NONE else a, b))])

def seq_reverse(s):
    def f(x):
        if isk(x, 'str'):
            return K(kval(x)[::-1])
        if kind(x) == 'str':
            return app('strrev', x)
        out = []
        for p in reversed(as_pieces(x)):
            if p.op == 'u':
                out.append(p)
            elif p.op == 'sp':
                src = p.args[0]
                if src.op == 'a' and src.args[0] == 'reversed_':
                    out.append(splice(src.args[1]))
                else:
                    ix = fresh('ix', 'int')
                    n = app('len', src)
                    r = mk_x('flat', n, ix, [], [], [mk_seq('list', [unit(app('at', src, sub(sub(n, ONE), ix)))])])
                    out += as_pieces(r)
            else:
                cnt, ix, _, (bd,) = open_x(p)
                r = mk_x('flat', cnt, ix, [], [], [seq_reverse(subst(bd, {ix: sub(sub(cnt, ONE), ix)}))])
                out += as_pieces(r)
        return mk_seq(x.args[0] if x.op == 'q' else 'list', out)
    return lift(f, s)

def contains(it, o, x):
    R = I()._refs
    if o is BOT:
        return BOT
    if o.op == 'ref':
        info = R[o]
        if info.cls is not None:
            f = it.class_attr(info.cls, '__contains__')
            if f is not None:
                return it.truth_of(it.call(it.bind(f, o, info.cls), [x], {}))
            if info.kind == 'dict':
                return app('in', it.freeze(x), it.rd(o, '$map'))
            return app('in', it.freeze(x), it.freeze(o))
        x = it.freeze(x)
        if info.kind == 'list':
            s = it._freeze(it.rd(o, '$seq'), None, {}, set())
            return lift(lambda ss, xx: seq_in(xx, ss), s, x)
        if info.kind == 'dict':
            return lift(lambda m, xx: map_in(m, xx), it.rd(o, '$map'), x)
        if info.kind == 'set':
            s = it.freeze(it.rd(o, '$set'))
            return lift(lambda ss, xx: seq_in(xx, ss), s, x)
    x = it.freeze(x)
    if kind(o) == 'str' or isk(o, 'str'):
        return lift(lambda xx: K(kval(xx) in kval(o)) if isk(o, 'str') and isk(xx, 'str') else app('contains', o, xx), x)
    oo = it.freeze(o)
    return lift(lambda xx, y: seq_in(xx, y) if y.op == 'q' else app('in', xx, y), x, oo)

# ---------------------------------------------------------------- attributes of externals
MODS = {'mpmath', 'math', 'os', 'os.path', 'sys', 'time', 'itertools', 'functools', 'copy', 'csv', 'json', 're', 'pickle',
        'progressbar', 'sympy', 'numpy', 'inspect', 'shutil', 'io', 'operator', 'datetime', 'configparser', 'string',
        'scipy', 'scipy.stats', 'scipy.special', 'decimal', 'plt', 'pprint', 'builtins', 'collections', 'random', 'pylatex',
        'mpmath.mp', 'itertools.chain', 'dict', 'list', 'str', 'object', 'int', 'float', 'glob', 'tempfile', 'warnings', 'abc',
        'enum', 'types', 'typing', 'logging', 'fractions', 'numbers', 'heapq', 'bisect', 'contextlib', 'traceback', 'gc'}
WORLD_FIELDS = {'mpmath.mp.dps': 'int', 'mpmath.mp.prec': 'int'}
def ext_attr(it, x, name):
    full = canon(x.args[0] + '.' + name)
    if full in ('mpmath.mp.dps', 'mpmath.mp.prec'):
        return it.rd(I().WORLD, full, sym(full, 'int'))
    w = it.rd(I().WORLD, full)
    if w is not None:
        return w
    if full in ('mpmath.inf', 'math.inf', 'mpmath.mp.inf'):
        return K(float('inf'))
    if full in ('mpmath.nan', 'math.nan', 'mpmath.mp.nan'):
        return K(float('nan'))
    if full in ('os.sep', 'os.path.sep'):
        return K('/')
    if full in ('int.__name__', 'str.__name__', 'float.__name__', 'list.__name__', 'dict.__name__', 'bool.__name__', 'tuple.__name__'):
        return K(full.split('.')[0])
    return I().bi(full)

def ext_method(it, base, name, self_, args, kwargs, is_super):
    R = I()._refs
    if R[self_].kind == 'dict' and base in ('dict', 'object', '?', 'collections.OrderedDict', 'collections.UserDict'):
        r = dict_method(it, self_, name, args, kwargs)
        if r is not None:
            return r
    if base in ('object', '?') or True:
        if name == '__init__':
            return NONE
        if name == '__new__':
            c = args[0] if args else NONE
            return it.thaw(I().inst_term(c, {}))
        if name == '__setattr__':
            it.wr(self_, kval(args[0]), args[1])
            return NONE
        if name in ('__getattribute__',):
            return it.getattr_(self_, kval(args[0]))
    # a method of an external base class: a function of the object's version
    pos = [it.freeze(a) for a in args if not isinstance(a, I().Star)] + [app('kw:' + k, it.freeze(v)) for k, v in sorted(kwargs.items())]
    ver = it.rd(self_, '$ext', sym('%s' % (R[self_].name or 'new'), '?'))
    v = app('extm:%s.%s' % (base, name), ver, *pos)
    it.may_raise(v)
    return v

# ---------------------------------------------------------------- methods of dictionaries
def dict_method(it, r, name, args, kwargs):
    m = it.rd(r, '$map')
    A = [it.freeze(args[0])] if args else []
    if name in ('__getitem__',):
        return dict_get(it, r, args[0])
    if name == '__setitem__':
        it.wr(r, '$map', map_set(m, A[0], args[1]))
        return NONE
    if name == '__delitem__':
        keyed(it, m, A[0])
        it.wr(r, '$map', map_del(m, A[0]))
        return NONE
    if name == '__contains__':
        return lift(map_in, m, A[0])
    if name == '__len__':
        return app('len', m)
    if name in ('__init__', 'update'):
        if args:
            src = args[0]
            def f(x):
                if x.op == 'ref' and R_kind(x) == 'dict':
                    it.wr(r, '$map', map_update(it.rd(r, '$map'), it.rd(x, '$map')))
                elif x.op == 'map' or kind(x) == 'map':
                    it.wr(r, '$map', map_update(it.rd(r, '$map'), x))
                elif x.op == 'q' or listlike(it, x):
                    it.wr(r, '$map', map_of_pairs(it, it.rd(r, '$map'), it.as_seq(x)))
                else:
                    it.wr(r, '$map', app('mapupd', it.rd(r, '$map'), it.freeze(x)))
                return NONE
            it.each_leaf(src, f)
        for k, v in kwargs.items():
            it.wr(r, '$map', map_set(it.rd(r, '$map'), K(k), v))
        return NONE
    if name == 'get':
        d = args[1] if len(args) > 1 else kwargs.get('default', NONE)
        c = lift(map_in, m, A[0])
        v = it.branch(cond_of(c, lambda x: x is TRUE), lambda: map_get(m, A[0]), lambda: d)
        note_origin(it, v, r, A[0])
        return v
    if name == 'setdefault':
        d = args[1] if len(args) > 1 else NONE
        if d.op == 'ref' and R_kind(d) == 'list' and it.rd(d, '$seq') is mk_seq('list', []):
            def f(mm, kk):
                if mm.op == 'map' and mm.args[0] is None:
                    return None
                return app('mapgetd', mm, kk)
            if not any(x.op == 'map' and x.args[0] is None for x in leaves(m)):
                v = lift(f, m, A[0])
                it.wr(r, '$map', lift(lambda mm, kk: app('mapext', mm, kk, mk_seq('list', [])), m, A[0]))
                for l in leaves(v):
                    it.origin[l] = (r, A[0])
                return v
        c = lift(map_in, m, A[0])
        def miss():
            it.wr(r, '$map', map_set(m, A[0], d))
            return d
        v = it.branch(cond_of(c, lambda x: x is TRUE), lambda: map_get(m, A[0]), miss)
        note_origin(it, v, r, A[0])
        return v
    if name == 'pop':
        c = lift(map_in, m, A[0])
        cc = cond_of(c, lambda x: x is TRUE)
        def hit():
            it.wr(r, '$map', map_del(m, A[0]))
            return map_get(m, A[0])
        def miss():
            if len(args) > 1:
                return args[1]
            it.raise_if(TRUE, 'KeyError', A[0])
            return BOT
        if len(args) > 1 or any('KeyError' in h for h in it.handlers):
            return it.branch(cc, hit, miss)
        return hit()
    if name in ('keys', '__iter__', 'values', 'items'):
        v = map_keys(m) if name in ('keys', '__iter__') else map_items(m)
        if name == 'values':
            v = lift(lambda s: mk_seq('list', as_pieces(s)), second(it, v))
        v = seq_retype(v, 'view')
        it.view_of = v, r
        return v
    if name == 'clear':
        it.wr(r, '$map', mk_map(None, {}))
        return NONE
    if name in ('copy', '__copy__'):
        return it.new_dict(m)
    if name == 'fromkeys':
        return None
    return None

def R_kind(x):
    return I()._refs[x].kind

def second(it, items):
    def f(s):
        if s is BOT:
            return BOT
        out = []
        for p in s.args[1]:
            if p.op == 'u':
                out.append(unit(app('at', p.args[0], ONE)))
            elif p.op == 'x':
                cnt, ix, _, (bd,) = open_x(p)
                out += as_pieces(mk_x('flat', cnt, ix, [], [], [second(it, bd)]))
            else:
                out.append(splice(app('values', p.args[0])))
        return mk_seq('list', out)
    return lift(f, items)

def map_del(m, k):
    def f(mm, kk):
        if mm.op == 'map' and _ground(kk):
            items = {a: b for a, b in mm.args[1] if a is not kk}
            if mm.args[0] is None:
                return mk_map(None, items)
            return app('mapdel', mk_map(mm.args[0], items), kk)
        return app('mapdel', mm, kk)
    return lift(f, m, k)

# ---------------------------------------------------------------- methods of values
STR_CONST = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'startswith', 'endswith', 'isdigit', 'isnumeric',
             'isalpha', 'title', 'capitalize', 'find', 'rfind', 'index', 'count', 'zfill', 'ljust', 'rjust', 'center'}
STR_METHODS = STR_CONST | {'split', 'rsplit', 'join', 'format', 'splitlines', 'encode', 'partition', 'rpartition'}
FILE_METHODS = {'write', 'read', 'readline', 'readlines', 'close', 'writelines', 'flush', 'seek', 'tell', 'truncate', 'getvalue'}

def value_method(it, x, name, args, kwargs):
    R = I()._refs
    if x is BOT:
        return BOT
    if x is NONE and not hasattr(None, name) or ptype(x) == 'str' and not hasattr('', name):
        it.raise_if(TRUE, 'AttributeError', K(name))
        return BOT
    if name in it.meth_stubs and x.op not in ('ref', 'q', 'map', 'st'):
        return it.meth_stubs[name](it, x, args, kwargs)
    if x.op == 'ref':
        info = R[x]
        if info.kind == 'list':
            return list_method(it, x, name, args, kwargs)
        if info.kind == 'dict':
            return dict_method(it, x, name, args, kwargs)
        if info.kind == 'set':
            return set_method(it, x, name, args, kwargs)
        return None
    if x.op == 'map' or (kind(x) == 'map' and x not in it.st.heap[I().OST]):
        r = it.new_dict(x)
        v = dict_method(it, r, name, args, kwargs)
        if it.rd(r, '$map') is not x:
            writeback(it, x, it.rd(r, '$map'))
        return v
    if x.op == 'q' or kind(x) == 'list' and x not in it.st.heap[I().OST] or (x in it.origin and name in ('append', 'extend', 'pop', 'sort', 'remove', 'insert', '__delitem__')):
        if x in it.origin and name in MUT_LIST:
            r0, k0 = it.origin[x]
            cur = it.getitem(r0, k0)
            r = it.new_list(lift(lambda c: mk_seq('list', as_pieces(c)), cur))
            before = it.rd(r, '$seq')
            v = list_method(it, r, name, args, kwargs)
            it.setitem(r0, k0, it.rd(r, '$seq'))
            return v
        if name in MUT_LIST and x.op != 'q':
            return None
        if x.op == 'q' and (name in MUT_LIST and x.args[0] != 'list' or x.args[0] != 'list' and not hasattr(SEQ_TYPES.get(x.args[0], list), name)):
            it.raise_if(TRUE, 'AttributeError', K(name))
            return BOT
        r = it.new_list(mk_seq('list', as_pieces(x)))
        return list_method(it, r, name, args, kwargs)
    if x.op == 'k' and x.args[0] == 'str' or kind(x) == 'str' or name in ('format', 'join', 'lower', 'upper', 'strip', 'split',
                                                                         'replace', 'startswith', 'endswith', 'splitlines'):
        return str_method(it, x, name, args, kwargs)
    if x.op == 'a' and x.args[0] in ('rematch', 'repat'):
        from . import text
        r = text.method(it, x, name, args, kwargs)
        if r is None:
            raise Unsupported('method %s of a regular expression' % name)
        return r
    if x.op == 'a' and x.args[0] in ('csv.writer', 'file', 'open', 'StringIO') or name in ('writerow', 'writerows'):
        return file_method(it, x, name, args, kwargs)
    if name == 'sqrt' and not args:
        return app('sqrt', x)
    if name == 'is_integer' and not args:
        return K(kval(x) == int(kval(x))) if isk(x, 'num') else app('isint', x)
    if kind(x) in ('int', 'num') and name == 'ln':
        return app('log', x)
    if kind(x) == 'num' and name == '__round__':
        return app('round', x, *args)
    return None

SEQ_TYPES = {'tuple': tuple, 'range': range, 'view': type({}.items()), 'gen': type(x for x in ())}
MUT_LIST = {'__delitem__', 'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'}

def writeback(it, x, new):
    if x in it.origin:
        r, k = it.origin[x]
        it.setitem(r, k, new)
    else:
        it.wr(I().OST, x, new)

def list_method(it, r, name, args, kwargs):
    s = it.rd(r, '$seq')
    if name == 'append':
        it.wr(r, '$seq', seq_concat('list', s, mk_seq('list', [unit(args[0])])))
        return NONE
    if name == 'extend':
        it.wr(r, '$seq', seq_concat('list', s, it.as_seq(args[0])))
        return NONE
    if name == 'insert':
        n = kint(args[0])
        if n == 0:
            it.wr(r, '$seq', seq_concat('list', mk_seq('list', [unit(args[1])]), s))
        else:
            it.wr(r, '$seq', seq_concat('list', seq_slice(s, NONE, args[0]), mk_seq('list', [unit(args[1])]), seq_slice(s, args[0], NONE)))
        return NONE
    if name == 'pop':
        k = args[0] if args else K(-1)
        v = app('at', s, k)
        if any('IndexError' in h or 'Exception' in h for h in it.handlers):
            it.raise_if(lift(lambda q: b_not(truth(q)) if q.op == 'q' else eq(app('len', q), ZERO), s), 'IndexError')
        n = kint(k)
        if n is not None:
            # a position known to be outside the list
            it.raise_if(lift(lambda q: K(not -len(q.args[1]) <= n < len(q.args[1])) if q.op == 'q' and all(p.op == 'u' for p in q.args[1]) else FALSE, s), 'IndexError')
        if n == -1:
            it.wr(r, '$seq', seq_slice(s, NONE, K(-1)))
        elif n is not None and n < -1:
            it.wr(r, '$seq', seq_concat('list', seq_slice(s, NONE, K(n)), seq_slice(s, K(n + 1), NONE)))
        elif n is not None and n >= 0:
            it.wr(r, '$seq', seq_concat('list', seq_slice(s, NONE, K(n)), seq_slice(s, K(n + 1), NONE)))
        else:
            it.wr(r, '$seq', lift(lambda q, kk: mk_seq('list', [splice(app('popped', q, kk))]), s, k))
        return v
    if name == '__delitem__':
        def gone(k):
            if is_slice(k):
                it.wr(r, '$seq', slice_put(it, s, k, mk_seq('list', [])))
            else:
                list_method(it, r, 'pop', [k], {})
            return NONE
        return it.each_leaf(args[0], gone)
    if name == 'popleft':
        return list_method(it, r, 'pop', [ZERO], {})
    if name == 'appendleft':
        return list_method(it, r, 'insert', [ZERO, args[0]], {})
    if name == 'remove':
        a = it.freeze(args[0])
        absent(it, s, a)
        it.wr(r, '$seq', lift(seq_removed, it.freeze(s), a))
        return NONE
    if name == 'clear':
        it.wr(r, '$seq', mk_seq('list', []))
        return NONE
    if name == 'copy':
        return it.new_list(s)
    if name == 'reverse':
        it.wr(r, '$seq', seq_reverse(s))
        return NONE
    if name == 'sort':
        it.wr(r, '$seq', sorted_(it, s, kwargs))
        return NONE
    if name == 'index':
        if len(args) == 1:
            absent(it, s, args[0])
        return lift(lambda q, a: seq_index(q, a), it.freeze(s), it.freeze(args[0]))
    if name == 'count':
        return lift(lambda q, a: seq_count(q, a), it.freeze(s), it.freeze(args[0]))
    if name in ('__len__',):
        return app('len', s)
    if name == '__getitem__':
        return it.getitem(r, args[0])
    if name == '__contains__':
        return contains(it, r, args[0])
    if name == '__iter__':
        return s
    if not hasattr(list, name) and not hasattr(tuple, name) and not any(hasattr(t, name) for t in (type({}.keys()), range, type(iter([])), type(x for x in ()))):
        it.raise_if(TRUE, 'AttributeError', K(name))
        return BOT
    raise Unsupported('list method %s' % name)

def absent(it, s, a):
    """the error of looking up a value that the list does not have"""
    it.raise_if(lift(lambda q, x: b_and(*[b_not(eq(x, p.args[0])) for p in q.args[1]]) if q.op == 'q' and all(p.op == 'u' for p in q.args[1]) else FALSE,
                     it.freeze(s), it.freeze(a)), 'ValueError', K('not in list'))

def seq_removed(q, a):
    if q.op == 'q' and all(p.op == 'u' for p in q.args[1]):
        us = list(q.args[1])
        r = BOT
        for i in reversed(range(len(us))):
            r = ite(eq(a, us[i].args[0]), mk_seq('list', us[:i] + us[i + 1:]), r)
        return r
    return mk_seq('list', [splice(app('removed', q, a))])

def seq_index(q, a):
    if q.op == 'q' and all(p.op == 'u' for p in q.args[1]):
        r = rawapp('notfound')
        for i in reversed(range(len(q.args[1]))):
            r = ite(eq(a, q.args[1][i].args[0]), K(i), r)
        return r
    return app('index', q, a)

def seq_count(q, a):
    if q.op != 'q':
        return app('count', q, a)
    r = ZERO
    for p in q.args[1]:
        if p.op == 'u':
            r = add(r, ite(eq(p.args[0], a), ONE, ZERO))
        elif p.op == 'sp':
            ix = fresh('ix', 'int')
            src = p.args[0]
            r = add(r, mk_x('sum', app('len', src), ix, [], [], [ite(eq(app('at', src, ix), a), ONE, ZERO)]))
        else:
            cnt, ix, _, (bd,) = open_x(p)
            r = add(r, mk_x('sum', cnt, ix, [], [], [lift(lambda y: seq_count(y, a), bd)]))
    return r

def set_method(it, r, name, args, kwargs):
    s = it.rd(r, '$set')
    if name == 'add':
        it.wr(r, '$set', seq_concat('list', s, mk_seq('list', [unit(args[0])])))
        return NONE
    if name == 'update':
        for a in args:
            it.wr(r, '$set', seq_concat('list', it.rd(r, '$set'), it.as_seq(a)))
        return NONE
    if name in ('remove', 'discard'):
        a = it.freeze(args[0])
        it.wr(r, '$set', collect_filter(it, s, lambda e: b_not(eq(e, a))))
        return NONE
    if name == 'union':
        out = s
        for a in args:
            out = seq_concat('list', out, it.as_seq(a))
        return it.new_set(out)
    if name == 'difference':
        return binop(it, 'Sub', r, args[0])
    if name == 'intersection':
        return binop(it, 'BitAnd', r, args[0])
    if name == 'copy':
        return it.new_set(s)
    raise Unsupported('set method %s' % name)

def str_method(it, x, name, args, kwargs):
    if name == 'format':
        if isk(x, 'str'):
            return str_format(it, kval(x), args, kwargs)
        return app('format', x, *it.flat_args(args, kwargs))
    if name == 'join':
        return join_(x, it._freeze(it.as_seq(args[0]), None, {}, set()))
    A = [it.freeze(a) for a in args]
    def f(*xs):
        x, a = xs[0], xs[1:]
        if all(isk(t) and t.args[0] in ('str', 'none') or kint(t) is not None for t in xs) and isk(x, 'str') and not kwargs:
            py = [kint(t) if kint(t) is not None else kval(t) for t in a]
            if name in STR_CONST:
                try:
                    return K(getattr(kval(x), name)(*py))
                except (ValueError, TypeError):
                    return BOT
            if name in ('split', 'rsplit', 'splitlines'):
                return mk_seq('list', [unit(K(p)) for p in getattr(kval(x), name)(*py)])
            if name in ('partition', 'rpartition'):
                return mk_seq('tuple', [unit(K(p)) for p in getattr(kval(x), name)(*py)])
        if name in ('startswith', 'endswith'):
            if a[0].op == 'q':
                return b_or(*[f(x, p.args[0]) for p in a[0].args[1]])
            if x.op == 'st' and isk(a[0], 'str'):
                e = x.args[0] if name == 'startswith' else x.args[-1]
                if isk(e, 'str'):
                    v, w = kval(e), kval(a[0])
                    if name == 'startswith' and (v.startswith(w) or not w.startswith(v)):
                        return K(v.startswith(w))
                    if name == 'endswith' and (v.endswith(w) or not w.endswith(v)):
                        return K(v.endswith(w))
        if name in ('lower', 'upper') and not a and (x.op == 'st' or tm.int_text(x) is not None):
            ps = x.args if x.op == 'st' else (x,)
            if all(isk(p, 'str') or tm.int_text(p) is not None for p in ps):
                return strcat(*[K(getattr(kval(p), name)()) if isk(p, 'str') else p for p in ps])
        if name in ('strip', 'lstrip', 'rstrip') and not a and (x.op == 'st' or tm.int_text(x) is not None):
            ps = list(x.args) if x.op == 'st' else [x]
            fine = True
            for i, side in ((0, 'lstrip'), (-1, 'rstrip')):
                if name in ('strip', side):
                    if isk(ps[i], 'str'):
                        ps[i] = K(getattr(kval(ps[i]), side)())
                        if kval(ps[i]) == '' and len(ps) > 1:
                            del ps[i]
                            fine = fine and (isk(ps[i], 'str') or tm.int_text(ps[i]) is not None)
                    else:
                        fine = fine and tm.int_text(ps[i]) is not None
            if fine:
                return strcat(*ps)
        if name == 'replace' and len(a) == 2 and isk(a[0], 'str') and isk(a[1], 'str') and kval(a[0]) and tm.st_untouched(x, kval(a[0])):
            return strcat(*[K(kval(p).replace(kval(a[0]), kval(a[1]))) if isk(p, 'str') else p for p in (x.args if x.op == 'st' else (x,))])
        if name == 'strip' and x.op == 'a' and x.args[0] == 'strip' and len(x.args) == 2 and not a:
            return x
        if name == 'lower' and x.op == 'a' and x.args[0] == 'lower':
            return x
        # lower and strip commute
        if name == 'lower' and x.op == 'a' and x.args[0] == 'strip' and len(x.args) == 2:
            return app('strip', app('lower', x.args[1]))
        return app(name, x, *a)
    r = lift(f, x, *A)
    it.may_raise(r) if name in ('index',) else None
    return r

tm.KIND_APP['split'] = 'list'
for _n in ('strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'percent', 'format', 'strmul', 'strrev', 'os.path.splitext0', 'zfill'):
    tm.KIND_APP[_n] = 'str'
for _n in ('isdigit', 'isnumeric', 'isalpha'):
    tm.BOOL_APPS.add(_n)
    tm.KIND_APP[_n] = 'bool'

def file_method(it, x, name, args, kwargs):
    if name in ('write', 'writerow', 'writerows', 'writelines', 'seek', 'truncate'):
        A = [it.freeze(a) for a in args]
        if name == 'writerow':
            A = [lift(lambda s: mk_seq('list', as_pieces(s)), it.freeze(it.as_seq(args[0])))]
        it.event('$trace:fs', K(name), it.freeze(x), *A)
        return NONE
    if name in ('close', 'flush'):
        return NONE
    return None

# ---------------------------------------------------------------- builtins and libraries
EXT = {}
def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d

PURE_NOEXC = {'mpmath.sqrt', 'mpmath.exp'}
IGNORED = {'print', 'pprint.pprint', 'pprint', 'sys.stdout.flush', 'sys.stdout.write', 'warnings.warn', 'plt.ioff', 'plt.ion', 'gc.collect',
           'warnings.filterwarnings', 'warnings.simplefilter', 'logging.info', 'logging.debug', 'logging.warning', 'logging.error',
           'traceback.print_exc', 'sys.set_int_max_str_digits'}

def call_ext(it, name, args, kwargs):
    f = it.stubs.get(name) or EXT.get(name)
    if f is not None:
        return f(it, args, kwargs)
    if name in IGNORED:
        return NONE
    if is_exc(name):
        return rawapp('exc', K(name), *it.flat_args(args, kwargs))
    base, _, meth = name.rpartition('.')
    if base in UNBOUND and meth not in ('fromkeys', 'maketrans', 'from_bytes', 'fromhex', '__new__') and args and not isinstance(args[0], I().Star) \
            and hasattr(getattr(_builtins, base), meth):
        # a method taken from a built-in class: dict.get(d, k)
        def f(x):
            if x is BOT or x is UNDEF:
                return BOT
            if x.op == 'ref' and I()._refs[x].cls is not None:
                return ext_method(it, base, meth, x, args[1:], kwargs, True)
            if x.op == 'ref' and base == 'object' and meth in ('__setattr__', '__getattribute__'):
                return ext_method(it, base, meth, x, args[1:], kwargs, True)
            if x.op == 'cls':
                return app('ext:' + name, *it.flat_args(args, kwargs))
            return it.call_value_method(x, meth, args[1:], kwargs)
        return it.each_leaf(args[0], f)
    short = SHORT.get(name)
    if short is None and any(not isinstance(a, I().Star) and any(l.op == 'ref' for l in leaves(a)) for a in list(args) + list(kwargs.values())):
        it.touched.add(name)
    fa = it.flat_args(args, kwargs)
    if short is not None:
        v = app(short, *fa)
        it.may_raise(v)
        return v
    v = app('ext:' + name, *fa)
    it.may_raise(v)
    return v

UNBOUND = {'dict', 'list', 'str', 'set', 'tuple', 'object'}
SHORT = {'mpmath.isnormal': 'isnormal', 'mpmath.isnan': 'isnan', 'mpmath.isinf': 'isinf', 'mpmath.isint': 'isint',
         'mpmath.sqrt': 'sqrt', 'mpmath.exp': 'exp', 'mpmath.sin': 'sin', 'mpmath.cos': 'cos', 'mpmath.tan': 'tan', 'mpmath.cot': 'cot',
         'mpmath.nint': 'nint', 'mpmath.floor': 'floor', 'mpmath.ceil': 'ceil', 'math.ceil': 'ceil', 'math.floor': 'floor',
         'os.path.exists': 'os.path.exists', 'os.path.isdir': 'os.path.isdir', 'os.path.isfile': 'os.path.isfile',
         'os.path.join': 'os.path.join', 'os.path.basename': 'os.path.basename', 'os.path.split': 'os.path.split',
         'os.path.splitext': 'os.path.splitext', 'os.path.dirname': 'os.path.dirname', 'time.strftime': 'time.strftime'}

import posixpath
def _tup(t):
    return mk_seq('tuple', [unit(K(x)) for x in t])
def _parts(x):
    return x.args if x.op == 'st' else (x,)
def _join2(a, b):
    """os.path.join of two paths: a single string when the end of the first and the start of the second are known"""
    if isk(a, 'str') and isk(b, 'str'):
        return K(posixpath.join(kval(a), kval(b)))
    h, e = _parts(b)[0], _parts(a)[-1]
    if isk(h, 'str') and kval(h).startswith('/'):
        return b
    if isk(h, 'str') and kval(h) and isk(e, 'str'):
        return b if isk(a, 'str') and kval(a) == '' else tm.strcat(a, K('' if kval(e).endswith('/') else '/'), b)
    if isk(h, 'str') and kval(h) and e.op == 'a' and e.args[0] == 'fmt':
        return tm.strcat(a, K('/'), b)
    return app('os.path.join', a, b)
def _pjoin(it, args, kwargs):
    def g(*xs):
        r = xs[0]
        for x in xs[1:]:
            r = _join2(r, x)
        return r
    return lift(g, *it.flat_args(args, kwargs))
EXT['os.path.join'] = _pjoin
def _split(x):
    """(directory, name) of a path whose last separator is known, or the two projections"""
    if isk(x, 'str'):
        return tuple(K(v) for v in posixpath.split(kval(x)))
    if x.op == 'a' and x.args[0] == 'os.path.join' and isk(x.args[2], 'str') and kval(x.args[2]) and '/' not in kval(x.args[2]):
        if x.args[1].op == 'st' and isk(x.args[1].args[-1], 'str') and not kval(x.args[1].args[-1]).endswith('/'):
            return x.args[1], x.args[2]
    if x.op == 'st' and isk(x.args[-1], 'str') and '/' in kval(x.args[-1]):
        d, n = kval(x.args[-1]).rsplit('/', 1)
        return tm.strcat(*x.args[:-1], K(d.rstrip('/'))), K(n)
    if x.op == 'st' or tm.int_text(x) is not None:
        from . import text
        r = text.uniform(x, posixpath.split)
        if r is not None:
            return tuple(p.args[0] for p in r.args[1])
    return app('os.path.dirname', x), app('os.path.basename', x)
def _splitext(x):
    if isk(x, 'str'):
        return _tup(posixpath.splitext(kval(x)))
    if x.op == 'st' and isk(x.args[-1], 'str'):
        n = kval(x.args[-1]).rsplit('/', 1)[-1]
        r, e = posixpath.splitext('x' + n if '/' not in kval(x.args[-1]) else n)
        if e:
            return mk_seq('tuple', [unit(tm.strcat(*x.args[:-1], K(kval(x.args[-1])[:-len(e)]))), unit(K(e))])
    if x.op == 'st' or tm.int_text(x) is not None:
        from . import text
        r = text.uniform(x, posixpath.splitext)
        if r is not None:
            return r
    return app('os.path.splitext', x)
def _path_fn(name, f):
    EXT[name] = lambda it, args, kwargs: lift(f, *it.flat_args(args, kwargs))
_path_fn('os.path.basename', lambda x: _split(x)[1])
_path_fn('os.path.dirname', lambda x: _split(x)[0])
_path_fn('os.path.split', lambda x: mk_seq('tuple', [unit(p) for p in _split(x)]))
_path_fn('os.path.splitext', _splitext)

@ext('math.log')
def _mathlog(it, args, kwargs):
    import math
    def f(*a):
        if all(isk(x, 'num') and kval(x) > 0 for x in a):
            try:
                return K(math.log(*[float(kval(x)) for x in a]))
            except ZeroDivisionError:
                return BOT
        return app('log', *a) if len(a) == 1 else div(app('log', a[0]), app('log', a[1]))
    return lift(f, *[it.freeze(a) for a in args])
@ext('math.log2')
def _mathlog2(it, args, kwargs):
    import math
    def f(x):
        if isk(x, 'num') and kval(x) > 0:
            return K(math.log2(kval(x)))
        return div(app('log', x), app('log', K(2)))
    return lift(f, it.freeze(args[0]))
@ext('mpmath.log')
def _log(it, args, kwargs):
    if len(args) == 1:
        return app('log', it.freeze(args[0]))
    return div(app('log', it.freeze(args[0])), app('log', it.freeze(args[1])))
@ext('mpmath.log10')
def _log10(it, args, kwargs):
    return div(app('log', it.freeze(args[0])), app('log', K(10)))

@ext('mpmath.mpf')
def _mpf(it, args, kwargs):
    if not args:
        return ZERO
    def f(x):
        if isk(x, 'str'):
            s = kval(x).strip()
            try:
                v = Fraction(s)
                if len(s) > 40 and v:
                    # a literal is rounded to the working precision of the moment (15 digits unless it was set)
                    d = kint(it.rd(I().WORLD, 'mpmath.mp.dps', K(15)))
                    if d is not None:
                        e = d - len(str(abs(v.numerator) // v.denominator))
                        v = Fraction(round(v * Fraction(10) ** e)) / Fraction(10) ** e
                return K(v)
            except (ValueError, ZeroDivisionError):
                try:
                    return K(float(s))
                except ValueError:
                    return app('mpf', x)
        if kind(x) == 'str':
            v = app('mpf', x)
            return v
        if isk(x, 'bool'):
            return K(kint(x))
        if x.op == 'q' and len(x.args[1]) == 2 and all(p.op == 'u' for p in x.args[1]):
            return app('mpf', x)
        return x
    v = lift(f, it.freeze(args[0]))
    it.may_raise(lift(lambda y: y if y.op == 'a' and y.args[0] == 'mpf' else BOT, v)) if any(l.op == 'a' and l.args[0] == 'mpf' for l in leaves(v)) else None
    return v

@ext('len')
def _blen(it, args, kwargs):
    def f(x):
        if x.op == 'ref':
            info = I()._refs[x]
            if info.kind == 'list':
                return app('len', it.rd(x, '$seq'))
            if info.cls is not None and it.class_attr(info.cls, '__len__') is not None:
                return it.call_method(x, '__len__', [], {})
            if info.kind == 'dict':
                return app('len', it.rd(x, '$map'))
            if info.kind == 'set':
                return app('len', mk_set(it.freeze(it.rd(x, '$set'))))
            raise Unsupported('len')
        return app('len', x)
    ok = type_errors(it, lambda x: ptype(x) in ('none', 'num'), args[0])
    if ok is FALSE:
        return BOT
    if ok is not None:
        args = [under(args[0], ok)]
    return it.each_leaf(args[0], f) if any(l.op == 'ref' for l in leaves(args[0])) else app('len', args[0])

@ext('range')
def _range(it, args, kwargs):
    a = args
    lo, hi, step = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
    def f(l, h, s):
        if BOT in (l, h, s):
            return BOT
        if kint(l) is not None and kint(h) is not None and kint(s):
            rg = range(kint(l), kint(h), kint(s))
            if len(rg) <= I().UNROLL:
                return mk_seq('range', [unit(K(i)) for i in rg])
        st = kint(s)
        d = sub(h, l)
        if st == 1:
            n = nonneg(d)
        elif st == -1:
            n = nonneg(neg(d))
        elif st is not None and st > 0:
            n = nonneg(app('floordiv', add(d, K(st - 1)), s))
        elif st is not None and st < 0:
            n = nonneg(app('floordiv', add(neg(d), K(-st - 1)), K(-st)))
        else:
            n = app('rangelen', l, h, s)
        ix = fresh('ix', 'int')
        return lift(lambda nn: mk_seq('range', as_pieces(mk_x('flat', nn, ix, [], [], [mk_seq('list', [unit(add(l, mul(ix, s)))])]))), n)
    return lift(f, lo, hi, step)
tm.KIND_APP['rangelen'] = 'int'

@ext('abs')
def _babs(it, args, kwargs):
    def f(x):
        z = it.thaw(x) if x.op == 'inst' else x
        if z.op == 'ref' and I()._refs[z].cls is not None and it.class_attr(I()._refs[z].cls, '__abs__') is not None:
            return it.call_method(z, '__abs__', [], {})
        return app('abs', it.freeze(x))
    ok = type_errors(it, lambda x: ptype(x) not in (None, 'num'), args[0])
    if ok is FALSE:
        return BOT
    v = args[0] if ok is None else under(args[0], ok)
    return it.each_leaf(v, f) if any(x.op in ('ref', 'inst') for x in leaves(v)) else app('abs', v)
@ext('int')
def _bint(it, args, kwargs):
    if not args:
        return ZERO
    def f(x, *base):
        if not base and (isk(x, 'str') or x.op == 'st' or tm.int_text(x) is not None):
            from . import text
            r = text.text_int(x)
            if r == 'bad':
                it.raise_if(TRUE, 'ValueError', K('invalid literal for int()'))
                return BOT
            if r is not None:
                return r
        v = app('int', x, *base)
        if v.op == 'a' and v.args[0] == 'int':
            it.may_raise(v)
        return v
    A = [it.freeze(a) for a in args]
    return it.each_leaf(A[0], lambda x: f(x, *A[1:]))
def bad_number(it):
    it.raise_(rawapp('exc', K('ValueError')))
    return BOT
@ext('float')
def _bfloat(it, args, kwargs):
    def f(x):
        from . import text
        if isk(x, 'str'):
            try:
                return K(float(kval(x)))
            except ValueError:
                return bad_number(it)
        if x.op == 'st' and text.no_float(x):
            return bad_number(it)
        return app('float', x)
    v = it.each_leaf(it.freeze(args[0]), f) if args else ZERO
    if any(l.op == 'a' and l.args[0] == 'float' for l in leaves(v)):
        it.may_raise(v)
    return v
@ext('str')
def _bstr(it, args, kwargs):
    return str_(it, args[0]) if args else K('')
@ext('itertools.groupby')
def _groupby(it, args, kwargs):
    s = it.freeze(it.as_seq(args[0]))
    key = kwargs.get('key', args[1] if len(args) > 1 else NONE)
    def f(q):
        if q.op != 'q' or any(p.op != 'u' for p in q.args[1]):
            raise Unsupported('groupby of an unknown sequence')
        groups = []
        for p in q.args[1]:
            k = p.args[0] if key is NONE else it.call(key, [p.args[0]], {})
            same = eq(groups[-1][0], k) if groups else FALSE
            if same not in (TRUE, FALSE):
                raise Unsupported('groupby of undecided keys')
            if same is TRUE:
                groups[-1][1].append(unit(p.args[0]))
            else:
                groups.append((k, [unit(p.args[0])]))
        return mk_seq('gen', [unit(tup(k, mk_seq('gen', g))) for k, g in groups])
    return it.each_leaf(s, f)
@ext('repr')
def _brepr(it, args, kwargs):
    return repr_(it, args[0])
@ext('bool')
def _bbool(it, args, kwargs):
    return it.truth_of(args[0]) if args else FALSE
@ext('format')
def _bformat(it, args, kwargs):
    return format_(it, args[0], kval(args[1]) if len(args) > 1 else '')

def seq_fold_bool(it, s, op):
    """any / all over a sequence term"""
    def f(q):
        r = FALSE
        for p in as_pieces(q):
            if p.op == 'u':
                c = it.truth_of(p.args[0])
                c = c if op == 'any' else b_not(c)
            elif p.op == 'sp':
                src = p.args[0]
                ix = fresh('ix', 'int')
                c = it.truth_of(app('at', src, ix))
                c = c if op == 'any' else b_not(c)
                c = mk_x('exists', app('len', src), ix, [], [], [c])
            else:
                cnt, ix, _, (bd,) = open_x(p)
                inner = seq_fold_bool(it, bd, op)
                if op == 'all':
                    inner = b_not(inner)
                c = mk_x('exists', cnt, ix, [], [], [inner])
            r = b_or(r, c)
        return r if op == 'any' else b_not(r)
    return lift(f, s)
@ext('any')
def _any(it, args, kwargs):
    return seq_fold_bool(it, it.as_seq(args[0]), 'any')
@ext('all')
def _all(it, args, kwargs):
    return seq_fold_bool(it, it.as_seq(args[0]), 'all')

def seq_sum(s):
    def f(q):
        r = ZERO
        for p in as_pieces(q):
            if p.op == 'u':
                r = add(r, num(p.args[0]))
            elif p.op == 'sp':
                src = p.args[0]
                ix = fresh('ix', 'int')
                r = add(r, mk_x('sum', app('len', src), ix, [], [], [app('at', src, ix)]))
            else:
                cnt, ix, _, (bd,) = open_x(p)
                r = add(r, mk_x('sum', cnt, ix, [], [], [seq_sum(bd)]))
        return r
    return lift(f, s)
def num(x):
    if kind(x) == 'bool':
        return ite(truth(x), ONE, ZERO)
    return lift(lambda y: K(kint(y)) if isk(y, 'bool') else y, x)
@ext('sum')
def _sum(it, args, kwargs):
    s = it.as_seq(args[0])
    start = args[1] if len(args) > 1 else kwargs.get('start', ZERO)
    if any(l.op == 'ref' for l in leaves(start)):
        # sum of lists
        r = new_cell(it, start)
        it.iterate(s, lambda x: it.wr(r, '$v', it.binop(ast.Add(), it.rd(r, '$v'), x)))
        return it.rd(r, '$v')
    if any(p.op == 'u' and any(l.op in ('ref', 'inst') for l in leaves(p.args[0])) for l in leaves(s) if l.op == 'q' for p in l.args[1]):
        r = new_cell(it, start)
        it.iterate(s, lambda x: it.wr(r, '$v', it.binop(ast.Add(), it.rd(r, '$v'), x)))
        return it.rd(r, '$v')
    return add(start, seq_sum(s))

def new_cell(it, v):
    r = I().new_ref('inst')
    it.st.heap[r] = {'$v': v}
    return r

def lift_minmax(name, it, args, kwargs):
    if 'key' in kwargs:
        s = it._freeze(it.as_seq(args[0]) if len(args) == 1 else mk_seq('list', [unit(a) for a in args]), None, {}, set())
        return app(name + 'by', s, lam(it, kwargs['key']))
    if len(args) > 1:
        return app(name, *[it.freeze(a) for a in args])
    s = it._freeze(it.as_seq(args[0]), None, {}, set())
    def f(q):
        if q.op == 'q' and q.args[1] and all(p.op == 'u' for p in q.args[1]):
            if len(q.args[1]) == 1:
                return q.args[1][0].args[0]
            return app(name, *[p.args[0] for p in q.args[1]])
        if q.op == 'q' and not q.args[1]:
            if 'default' in kwargs:
                return it.freeze(kwargs['default'])
            return BOT
        v = app('seq' + name, mk_seq('list', as_pieces(q)))
        return ite(eq(app('len', q), ZERO), it.freeze(kwargs['default']), v) if 'default' in kwargs else v
    if 'default' not in kwargs:
        it.raise_if(lift(lambda q: K(q.op == 'q' and not q.args[1]), s), 'ValueError')
    return lift(f, s)
@ext('min')
def _bmin(it, args, kwargs):
    return lift_minmax('min', it, args, kwargs)
@ext('max')
def _bmax(it, args, kwargs):
    return lift_minmax('max', it, args, kwargs)
tm.KIND_APP['seqmin'] = tm.KIND_APP['seqmax'] = 'num'

def sorted_units(it, s, kwargs):
    """sorting a few separate elements: stable insertion by keys that are numbers or constants of one type"""
    rev, key = kwargs.get('reverse', FALSE), kwargs.get('key', NONE)
    if s.op == 'n' or s.op != 'q' or not all(p.op == 'u' for p in s.args[1]) or len(s.args[1]) > 64 or rev not in (TRUE, FALSE) or key.op == 'n':
        return None
    es = [p.args[0] for p in s.args[1]]
    if key is NONE:
        ks = es
    else:
        ks = [it.freeze(it.call(key, [e], {})) for e in es]
    if ks and all(k.op == 'q' for k in ks):
        def conc(k):
            if isk(k):
                if k.args[0] not in ('num', 'int', 'str'):
                    raise ValueError
                return kval(k)
            if k.op == 'q' and k.args[0] in ('tuple', 'list') and all(p.op == 'u' for p in k.args[1]):
                return tuple([conc(p.args[0]) for p in k.args[1]]) if k.args[0] == 'tuple' else [conc(p.args[0]) for p in k.args[1]]
            raise ValueError
        try:
            vs = [conc(k) for k in ks]
            return mk_seq('list', [unit(es[i]) for i in sorted(range(len(es)), key=lambda i: vs[i], reverse=rev is TRUE)])
        except (ValueError, TypeError):
            return None
    if len(es) > 12 and not all(isk(k) for k in ks):
        return None
    ls = [l for k in ks for l in leaves(k)]
    if all(isk(k) for k in ks):
        if len({k.args[0] for k in ks}) > 1 or any(k.args[0] not in ('num', 'int', 'str') for k in ks):
            return None
        return mk_seq('list', [unit(es[i]) for i in sorted(range(len(es)), key=lambda i: kval(ks[i]), reverse=rev is TRUE)])
    if len(es) > 4 or not all(kind(l) in ('int', 'num') or isk(l, 'num') for l in ls):
        return None
    def build(done, rest):
        if not rest:
            return mk_seq('list', [unit(e) for k, e in done])
        k, e = rest[0]
        def at(i):
            r = build(done[:i] + [(k, e)] + done[i:], rest[1:])
            if i == 0:
                return r
            p = done[i - 1][0]
            c = lift(le, k, p) if rev is TRUE else lift(le, p, k)
            return r if c is TRUE else at(i - 1) if c is FALSE else ite(c, r, at(i - 1))
        return at(len(done))
    return build([], list(zip(ks, es)))

def sorted_(it, s, kwargs):
    s = it._freeze(s, None, {}, set())
    r = sorted_units(it, s, kwargs)
    if r is not None:
        return r
    extra = []
    if 'key' in kwargs and not all(l is NONE for l in leaves(kwargs['key'])):
        extra.append(app('kw:key', lam(it, kwargs['key'])))
    if 'reverse' in kwargs and not all(l is FALSE for l in leaves(kwargs['reverse'])):
        extra.append(app('kw:reverse', kwargs['reverse']))
    def f(q, *ex):
        if q.op == 'q' and all(p.op == 'u' and isk(p.args[0]) for p in q.args[1]) and not ex:
            vs = [p.args[0] for p in q.args[1]]
            if len({v.args[0] for v in vs}) <= 1:
                return mk_seq('list', [unit(v) for v in sorted(vs, key=kval)])
        return mk_seq('list', [splice(app('sorted', mk_seq('list', as_pieces(q)), *ex))])
    return lift(f, s, *extra)
@ext('sorted')
def _sorted(it, args, kwargs):
    return it.new_list(sorted_(it, it.as_seq(args[0]), kwargs))
@ext('reversed')
def _reversed(it, args, kwargs):
    return seq_retype(seq_reverse(it.as_seq(args[0])), 'gen')
@ext('enumerate')
def _enumerate(it, args, kwargs):
    start = args[1] if len(args) > 1 else kwargs.get('start', ZERO)
    def f(q, st):
        if q.op == 'q' and all(p.op == 'u' for p in q.args[1]):
            return mk_seq('gen', [unit(tup(add(st, K(i)), p.args[0])) for i, p in enumerate(q.args[1])])
        ix = fresh('ix', 'int')
        n = app('len', q)
        def g(nn):
            return mk_seq('gen', as_pieces(mk_x('flat', nn, ix, [], [], [mk_seq('list', [unit(tup(add(st, ix), app('at', one_src(q), ix)))])])))
        return lift(g, n)
    r = lift(f, it.as_seq(args[0]), start)
    it.enum_of = r, args[0], start
    return r

def one_src(q):
    """the source itself for a plain splice"""
    if q.op == 'q' and len(q.args[1]) == 1 and q.args[1][0].op == 'sp':
        return q.args[1][0].args[0]
    return q

def _workdps(it, args, kwargs):
    return app('cm:workdps', it.freeze(args[0]))
def _extradps(it, args, kwargs):
    return app('cm:extradps', it.freeze(args[0]))
def _suppress(it, args, kwargs):
    ns = []
    for a in args:
        if a.op == 'bi' and a.args[0] in I().INT_EXC:
            ns.append(a.args[0])
        else:
            raise Unsupported('suppress')
    return app('cm:suppress', *[K(n) for n in ns])
@ext('mpmath.nstr')
def _nstr(it, args, kwargs):
    if any(isinstance(a, I().Star) for a in args) or '**' in kwargs:
        raise Unsupported('nstr(*unknown)')
    fa = [it.freeze(a) for a in args] + ([it.freeze(kwargs['n'])] if 'n' in kwargs else [])
    for k in sorted(kwargs):
        if k != 'n':
            fa += [K(k), it.freeze(kwargs[k])]
    v = app('nstr', *fa)
    it.may_raise(v)
    return v
EXT['mpmath.workdps'] = EXT['mpmath.mp.workdps'] = _workdps
EXT['mpmath.extradps'] = EXT['mpmath.mp.extradps'] = _extradps
EXT['contextlib.suppress'] = _suppress

@ext('itertools.zip_longest')
def _zip_longest(it, args, kwargs):
    fill = kwargs.get('fillvalue', NONE)
    if any(isinstance(a, I().Star) for a in args):
        raise Unsupported('zip_longest(*unknown)')
    def f(*qs):
        if not all(q.op == 'q' and all(p.op == 'u' for p in q.args[1]) for q in qs):
            raise Unsupported('zip_longest of unknown sequences')
        rows = [[p.args[0] for p in q.args[1]] for q in qs]
        if shared_iterator(qs):
            n = len(args)
            r = rows[0] + [fill] * (-len(rows[0]) % n)
            return mk_seq('gen', [unit(tup(*r[i:i + n])) for i in range(0, len(r), n)])
        n = max([len(r) for r in rows], default=0)
        return mk_seq('gen', [unit(tup(*[r[i] if i < len(r) else fill for r in rows])) for i in range(n)])
    return lift(f, *[it.as_seq(a) for a in args])

def shared_iterator(qs):
    """one iterator given several times is read in turns"""
    return len(qs) > 1 and qs[0].op == 'q' and qs[0].args[0] == 'gen' and qs[0].args[1] and all(q is qs[0] for q in qs)
@ext('zip')
def _zip(it, args, kwargs):
    if any(isinstance(a, I().Star) for a in args):
        return app('ext:zip', *it.flat_args(args, kwargs))
    seqs = [it.as_seq(a) for a in args]
    if 'fillvalue' in kwargs:
        return app('ext:zip_longest', *it.flat_args(args, kwargs))
    def f(*qs):
        if all(q.op == 'q' and all(p.op == 'u' for p in q.args[1]) for q in qs):
            if shared_iterator(qs):
                r, n = qs[0].args[1], len(qs)
                return mk_seq('gen', [unit(tup(*[p.args[0] for p in r[i:i + n]])) for i in range(0, len(r) - n + 1, n)])
            return mk_seq('gen', [unit(tup(*[p.args[0] for p in ps])) for ps in zip(*[q.args[1] for q in qs])])
        if shared_iterator(qs):
            raise Unsupported('zip of one iterator')
        ls = [app('len', q) for q in qs]
        n = ls[0]
        for l in ls[1:]:
            if l is not n:
                n = app('min', n, l)
        ix = fresh('ix', 'int')
        return lift(lambda nn: mk_seq('gen', as_pieces(mk_x('flat', nn, ix, [], [], [mk_seq('list', [unit(tup(*[app('at', one_src(q), ix) for q in qs]))])]))), n)
    return lift(f, *seqs)

@ext('map')
def _map(it, args, kwargs):
    if len(args) == 2:
        return seq_retype(collect(it, args[1], lambda x: it.call(args[0], [x], {})), 'gen')
    z = _zip(it, args[1:], {})
    return seq_retype(collect(it, z, lambda x: it.call(args[0], [app('at', x, K(j)) for j in range(len(args) - 1)], {})), 'gen')
@ext('filter')
def _filter(it, args, kwargs):
    f = args[0]
    return seq_retype(collect_filter(it, args[1], (lambda x: it.truth_of(x)) if f is NONE else
                                     (lambda x: it.truth_of(it.call(f, [x], {})))), 'gen')
@ext('list')
def _blist(it, args, kwargs):
    return it.new_list(it.as_seq(args[0]) if args else mk_seq('list', []))
@ext('tuple')
def _btuple(it, args, kwargs):
    if not args:
        return mk_seq('tuple', [])
    s = it.as_seq(args[0])
    def f(q):
        if q.op == 'q' and len(q.args[1]) == 1 and q.args[1][0].op == 'sp' and kind(q.args[1][0].args[0]) == 'tuple':
            return q.args[1][0].args[0]
        return mk_seq('tuple', as_pieces(q))
    return lift(f, s)
@ext('set', 'frozenset')
def _bset(it, args, kwargs):
    return it.new_set(seq_retype(it.as_seq(args[0]), 'list') if args else mk_seq('list', []))
@ext('collections.defaultdict')
def _bdefaultdict(it, args, kwargs):
    r = _bdict(it, args[1:], kwargs)
    if args and args[0] is not NONE:
        I()._refs[r].default = args[0]
    return r
@ext('collections.deque')
def _bdeque(it, args, kwargs):
    if len(args) > 1 or kwargs:
        raise Unsupported('deque of limited length')
    return it.new_list(seq_retype(it.as_seq(args[0]), 'list') if args else mk_seq('list', []))
@ext('dict', 'collections.OrderedDict')
def _bdict(it, args, kwargs):
    r = it.new_dict(mk_map(None, {}))
    if args or kwargs:
        dict_method(it, r, 'update', args, {k: v for k, v in kwargs.items() if k != '**'})
        if '**' in kwargs:
            it.wr(r, '$map', map_update(it.rd(r, '$map'), kwargs['**']))
    return r

TYPES = {'int': ('int',), 'str': ('str',), 'list': ('list',), 'tuple': ('tuple',), 'dict': ('map',), 'bool': ('bool',)}
def isinstance1(it, x, c):
    if c.op == 'q':
        return b_or(*[isinstance1(it, x, p.args[0]) for p in c.args[1]])
    R = I()._refs
    if x.op == 'ref':
        info = R[x]
        if info.cls is not None:
            if c in it.mro(info.cls):
                return TRUE
            if c.op == 'bi':
                return K(c.args[0] == 'object' or (c.args[0] == 'dict' and info.kind == 'dict'))
            if info.lazy is not None:
                # symbolic object: subclasses are possible
                if c.op == 'cls' and info.cls in it.mro(c):
                    return batom(rawapp('isinstance', x, c))
            return FALSE
        if c.op == 'bi':
            return K({'list': 'list', 'dict': 'dict', 'set': 'set'}.get(c.args[0]) == info.kind or c.args[0] == 'object')
        return FALSE
    if x.op == 'inst':
        return K(x.args[0] is not None and c in it.mro(x.args[0]))
    if c.op == 'bi':
        n = c.args[0]
        k = kind(x)
        if x.op == 'q':
            k = x.args[0]
        if n == 'object':
            return TRUE
        if k in ('str', 'list', 'tuple', 'bool', 'map', 'none', 'cls', 'fn', 'bm', 'set'):
            if n in TYPES:
                return K(k in TYPES[n] or (n == 'int' and k == 'bool'))
            if n in ('float', 'mpmath.mpf', 'decimal.Decimal', 'type'):
                return K(n == 'type' and k == 'cls')
        if k in ('int', 'num') and n in ('str', 'list', 'tuple', 'dict', 'type', 'set'):
            return FALSE
        if k == 'int' and n == 'int' and x.op != 'k':
            return TRUE
        if k == 'num' and n == 'mpmath.mpf' and it.assume_mpf:
            return TRUE
        if isk(x, 'num') and n == 'int' and kint(x) is not None:
            return TRUE
    if c.op == 'cls' and x.op in ('k', 'q', 'st', 'map', 'p'):
        return FALSE
    if x.op == 'a' and x.args[0] == 'exc':
        nm = c.args[0] if c.op == 'bi' else obj_name(c)
        return K(it.exc_sub(kval(x.args[1]), nm))
    return app('isinstance', it.freeze(x), c)
def obj_name(c):
    return I().obj(c).name

@ext('isinstance')
def _isinstance(it, args, kwargs):
    return lift(lambda x, c: isinstance1(it, x, c) if x is not BOT else BOT, args[0], args[1])
@ext('issubclass')
def _issubclass(it, args, kwargs):
    def f(x, c):
        if c.op == 'q':
            return b_or(*[f(x, p.args[0]) for p in c.args[1]])
        if x.op in ('cls', 'bi') and c.op in ('cls', 'bi'):
            return K(c in it.mro(x))
        if x.op in ('k', 'q', 'fn'):
            it.raise_if(TRUE, 'TypeError')
            return BOT
        return app('issubclass', x, c)
    return lift(f, args[0], args[1])
@ext('inspect.isclass')
def _isclass(it, args, kwargs):
    def f(x):
        if x.op == 'cls':
            return TRUE
        if x.op == 'bi':
            n = x.args[0].rsplit('.', 1)[-1]
            return K(is_exc(x.args[0]) or n in ('int', 'float', 'str', 'list', 'dict', 'tuple', 'set', 'bool', 'object', 'mpf', 'partial', 'chain',
                                                'property', 'staticmethod', 'classmethod', 'ConfigParser', 'Decimal', 'timedelta', 'product'))
        if x.op in ('fn', 'k', 'q', 'mod', 'ref', 'bm', 'map', 'wrap', 'p', 'inst', 'a'):
            return FALSE
        return app('ext:isclass', x)
    return lift(f, args[0])
@ext('callable')
def _callable(it, args, kwargs):
    def f(x):
        if x.op in ('fn', 'cls', 'bm', 'bi'):
            return TRUE
        if x.op in ('k', 'q', 'st', 'map', 'p'):
            return FALSE
        return app('ext:callable', x)
    return lift(f, it.freeze(args[0]))
tm.BOOL_APPS.add('ext:callable'); tm.BOOL_APPS.add('ext:isclass')
tm.KIND_APP['ext:callable'] = tm.KIND_APP['ext:isclass'] = 'bool'
@ext('type')
def _type(it, args, kwargs):
    R = I()._refs
    def f(x):
        if x.op == 'ref':
            if R[x].cls is not None:
                if R[x].lazy is not None:
                    return R[x].cls
                return R[x].cls
            return I().bi(R[x].kind)
        if x.op == 'inst':
            return x.args[0]
        if x.op == 'q' and x.args[0] in ('list', 'tuple'):
            return I().bi(x.args[0])
        k = kind(x)
        if k in ('str', 'bool', 'int') and not (k == 'int' and x.op == 'k'):
            return I().bi(k)
        if k == 'int' and x.op == 'k':
            return I().bi('int')
        if k == 'map':
            return I().bi('dict')
        if x is NONE:
            return I().bi('NoneType')
        if k == 'num' and it.assume_mpf:
            return I().bi('mpmath.mpf')
        return app('type', it.freeze(x))
    return lift(f, args[0])
@ext('hasattr')
def _hasattr(it, args, kwargs):
    R = I()._refs
    def f(x, n):
        if x.op == 'ref' and isk(n, 'str'):
            info = R[x]
            v = it.rd(x, kval(n))
            if info.cls is not None and it.class_attr(info.cls, kval(n)) is not None:
                return TRUE
            if v is not None:
                return b_not(cond_of(v, lambda l: l is UNDEF))
            if info.lazy is None and info.cls is not None and not any(b.op == 'bi' for b in it.mro(info.cls) if b is not I().bi('object')):
                return FALSE
        if x.op in ('cls',) and isk(n, 'str'):
            return K(it.class_attr(x, kval(n)) is not None)
        if x.op == 'mod' and isk(n, 'str'):
            return K(it.rd(I().obj(x), kval(n)) is not None)
        k = kind(x)
        if isk(n, 'str') and kval(n) == '__len__' and (k in NUMK or k in ('none', 'fn', 'cls')):
            return FALSE
        if isk(n, 'str') and kval(n) in ('__iter__', '__len__') and k in ('list', 'tuple', 'str', 'map', 'set'):
            return TRUE
        return app('hasattr', it.freeze(x), n)
    return lift(f, args[0], args[1])
@ext('getattr')
def _getattr(it, args, kwargs):
    def g(n):
        if not isk(n, 'str'):
            return app('getattr', it.freeze(args[0]), n)
        if len(args) > 2:
            h = _hasattr(it, [args[0], n], {})
            return it.branch(h, lambda: it.getattr_(args[0], kval(n)), lambda: args[2])
        return it.getattr_(args[0], kval(n))
    return it.each_leaf(args[1], g)
@ext('setattr')
def _setattr(it, args, kwargs):
    def g(n):
        if not isk(n, 'str'):
            def f(x):
                it.mutate(x, 'setattr', [n, args[2]])
                return NONE
            return it.each_leaf(args[0], f)
        it.setattr_(args[0], kval(n), args[2])
        return NONE
    it.each_leaf(args[1], g)
    return NONE
@ext('delattr')
def _delattr(it, args, kwargs):
    it.setattr_(args[0], kval(args[1]), UNDEF)
    return NONE
@ext('property')
def _property(it, args, kwargs):
    return I().regobj('wrap', I().Wrapper('property', args[0], args[1] if len(args) > 1 else None))
@ext('staticmethod')
def _static(it, args, kwargs):
    return I().regobj('wrap', I().Wrapper('static', args[0]))
@ext('classmethod')
def _classm(it, args, kwargs):
    return I().regobj('wrap', I().Wrapper('class', args[0]))
@ext('round')
def _round(it, args, kwargs):
    return app('round', *[it.freeze(a) for a in args]) if len(args) > 1 and args[1] is not NONE else app('nint', it.freeze(args[0]))
tm.KIND_APP['round'] = 'num'
@ext('divmod')
def _divmod(it, args, kwargs):
    return tup(app('floordiv', args[0], args[1]), app('mod', args[0], args[1]))
@ext('pow')
def _pow(it, args, kwargs):
    return power(args[0], args[1])
@ext('exit')
def _exit(it, args, kwargs):
    it.raise_if(TRUE, 'SystemExit')
    return BOT
@ext('iter')
def _iter(it, args, kwargs):
    s = it.as_seq(args[0])
    return seq_retype(s, 'gen')
@ext('next')
def _next(it, args, kwargs):
    s = it.as_seq(args[0])
    if len(args) > 1:
        c = lift(lambda q: seq_nonempty(q) if q.op == 'q' else lt(ZERO, app('len', q)), s)
        return ite(c, first_of(s), args[1])
    return first_of(s)
def first_of(s):
    """first element of a filtered sequence"""
    def f(q):
        if q.op == 'q' and len(q.args[1]) == 1 and q.args[1][0].op == 'x':
            cnt, ix, _, (bd,) = open_x(q.args[1][0])
            ls = leaves(bd)
            if all(l.op == 'q' and (not l.args[1] or len(l.args[1]) == 1 and l.args[1][0].op == 'u') for l in ls):
                has = cond_of(bd, lambda l: bool(l.args[1]))
                if has is not TRUE:
                    el = lift(lambda l: l.args[1][0].args[0] if l.args[1] else BOT, bd)
                    el = under(el, has)
                    return subst(el, {ix: I().mk_first(cnt, ix, has)})
        return app('at', q, ZERO)
    return lift(f, s)
@ext('id')
def _id(it, args, kwargs):
    return app('id', args[0])
@ext('open')
def _open(it, args, kwargs):
    p = it.freeze(args[0])
    mode = args[1] if len(args) > 1 else kwargs.get('mode', K('r'))
    f = app('file', p, mode)
    def ev(m):
        if isk(m, 'str') and not any(c in kval(m) for c in 'wax+'):
            return NONE
        it.event('$trace:fs', K('open'), p, m)
        return NONE
    it.each_leaf(mode, ev)
    it.may_raise(f)
    return f

# --- itertools / functools / copy
@ext('itertools.product')
def _product(it, args, kwargs):
    rep = kwargs.get('repeat', ONE)
    if any(isinstance(a, I().Star) for a in args):
        if len(args) == 1 and rep is ONE:
            s = args[0].seq
            return lift(lambda q: product_star(it, q), it.freeze(s))
        return app('ext:itertools.product', *it.flat_args(args, kwargs))
    n = kint(rep)
    if n is None:
        if len(args) == 1:
            s = it._freeze(it.as_seq(args[0]), None, {}, set())
            return lift(lambda q, r: app('power_set', mk_seq('list', as_pieces(q)), r), s, rep)
        return app('ext:itertools.product', *it.flat_args(args, kwargs))
    return product_of(it, list(args) * n)
def product_of(it, srcs):
    r = it.new_list(mk_seq('list', []))
    def rec(i, acc):
        if i == len(srcs):
            it.wr(r, '$seq', seq_concat('list', it.rd(r, '$seq'), mk_seq('list', [unit(tup(*acc))])))
            return
        it.iterate(srcs[i], lambda x: rec(i + 1, acc + [x]))
    rec(0, [])
    out = it.rd(r, '$seq')
    it.st.heap.pop(r, None)
    return seq_retype(out, 'gen')
def product_star(it, q):
    if q.op == 'q' and all(p.op == 'u' for p in q.args[1]):
        return product_of(it, [p.args[0] for p in q.args[1]])
    if q.op == 'q' and len(q.args[1]) == 1 and q.args[1][0].op == 'x':
        cnt, ix, _, (bd,) = open_x(q.args[1][0])
        if all(l.op == 'q' and len(l.args[1]) == 1 and l.args[1][0].op == 'u' for l in leaves(bd)):
            el = lift(lambda l: l.args[1][0].args[0], bd)
            if ix not in el.fv:
                # the same factor every time
                return lift(lambda e: app('power_set', mk_seq('list', as_pieces(e)) if e.op == 'q' else e, cnt), el)
    return app('product*', mk_seq('list', as_pieces(q)))
@ext('itertools.chain')
def _chain(it, args, kwargs):
    if any(isinstance(a, I().Star) for a in args):
        if len(args) == 1:
            return _chainfi(it, [args[0].seq], {})
        raise Unsupported('chain(*)')
    return seq_retype(seq_concat('gen', *[it.as_seq(a) for a in args]), 'gen')
@ext('itertools.chain.from_iterable')
def _chainfi(it, args, kwargs):
    r = it.new_list(mk_seq('list', []))
    it.iterate(args[0], lambda x: it.wr(r, '$seq', seq_concat('list', it.rd(r, '$seq'), it.as_seq(x))))
    return seq_retype(it.rd(r, '$seq'), 'gen')
def _units(it, v):
    q = it._freeze(it.as_seq(v), None, {}, set())
    return all(l.op == 'q' and all(p.op == 'u' for p in l.args[1]) for l in leaves(q)) and q
@ext('itertools.dropwhile')
def _dropwhile(it, args, kwargs):
    q0 = _units(it, args[1])
    if q0:
        def f(q):
            us = [p.args[0] for p in q.args[1]]
            def rec(i):
                rest = mk_seq('gen', [unit(u) for u in us[i:]])
                if i == len(us):
                    return rest
                return ite(it.truth_of(it.call(args[0], [us[i]], {})), rec(i + 1), rest)
            return rec(0)
        return it.each_leaf(q0, f)
    return lift(lambda p, q: mk_seq('gen', [splice(app('dropwhile', p, mk_seq('list', as_pieces(q))))]), lam(it, args[0]), it.freeze(it.as_seq(args[1])))
@ext('itertools.takewhile')
def _takewhile(it, args, kwargs):
    q0 = _units(it, args[1])
    if q0:
        def f(q):
            us = [p.args[0] for p in q.args[1]]
            def rec(i):
                if i == len(us):
                    return mk_seq('gen', [unit(u) for u in us])
                return ite(it.truth_of(it.call(args[0], [us[i]], {})), rec(i + 1), mk_seq('gen', [unit(u) for u in us[:i]]))
            return rec(0)
        return it.each_leaf(q0, f)
    return lift(lambda p, q: mk_seq('gen', [splice(app('takewhile', p, mk_seq('list', as_pieces(q))))]), lam(it, args[0]), it.freeze(it.as_seq(args[1])))
def _combinatoric(name):
    import itertools
    fn = getattr(itertools, name)
    def g(it, args, kwargs):
        r = args[1] if len(args) > 1 else kwargs.get('r', NONE)
        def f(q, k):
            if q.op == 'q' and all(p.op == 'u' for p in q.args[1]) and (k is NONE or kint(k) is not None) and len(q.args[1]) <= 12:
                return mk_seq('gen', [unit(mk_seq('tuple', c)) for c in fn(q.args[1], *(() if k is NONE else (kint(k),)))])
            return mk_seq('gen', [splice(app('itertools.' + name, mk_seq('list', as_pieces(q)), k))])
        return lift(f, it._freeze(it.as_seq(args[0]), None, {}, set()), r)
    EXT['itertools.' + name] = g
for _n in ('combinations', 'combinations_with_replacement', 'permutations'):
    _combinatoric(_n)
def _binom(it, args, kwargs):
    import math
    def f(n, k):
        a, b = kint(n), kint(k)
        if a is not None and b is not None and a >= 0:
            return K(math.comb(a, b) if b >= 0 else 0)
        return app('binom', n, k)
    return lift(f, args[0], args[1])
EXT['scipy.special.binom'] = EXT['scipy.special.comb'] = EXT['math.comb'] = EXT['mpmath.binomial'] = EXT['sympy.binomial'] = _binom
@ext('functools.partial')
def _partial(it, args, kwargs):
    return app('partial', args[0], mk_seq('tuple', [unit(a) for a in args[1:]]), mk_map(None, {K(k): v for k, v in kwargs.items()})) \
        if not any(isinstance(a, I().Star) for a in args) else app('partial?', *it.flat_args(args, kwargs))
@ext('functools.wraps', 'functools.lru_cache')
def _wraps(it, args, kwargs):
    return I().regobj('fn', ('py', lambda it, a, k: a[0]), 'wraps')
@ext('functools.reduce')
def _reduce(it, args, kwargs):
    s = it.as_seq(args[1])
    if len(args) > 2:
        r = new_cell(it, args[2])
    else:
        r = new_cell(it, app('at', s, ZERO))
        s = seq_slice(s, ONE, NONE)
    it.iterate(s, lambda x: it.wr(r, '$v', it.call(args[0], [it.rd(r, '$v'), x], {})))
    return it.rd(r, '$v')
OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'floordiv': 'FloorDiv', 'mod': 'Mod', 'pow': 'Pow', 'or_': 'BitOr', 'and_': 'BitAnd'}
for _k, _v in OPS.items():
    EXT['operator.' + _k] = (lambda nm: lambda it, args, kwargs: binop(it, nm, args[0], args[1]))(_v)
EXT['operator.neg'] = lambda it, args, kwargs: it.neg_(args[0])
EXT['operator.not_'] = lambda it, args, kwargs: b_not(it.truth_of(args[0]))
EXT['operator.eq'] = lambda it, args, kwargs: eq(it.data(args[0]), it.data(args[1]))
EXT['operator.itemgetter'] = lambda it, args, kwargs: I().regobj('fn', ('py', lambda it2, a, k: it2.getitem(a[0], args[0])), ('itemgetter', args[0]))

def thaw_deep(it, t):
    def f(x):
        if x.op == 'inst':
            r = I().new_ref('inst', x.args[0])
            if '$map' in x.args[1]:
                I()._refs[r].kind = 'dict'
            it.st.heap[r] = {n: (thaw_deep(it, v) if n not in ('$map', '$base') else v) for n, v in zip(x.args[1], x.args[2])}
            return r
        if x.op == 'q' and x.args[0] == 'list':
            return it.new_list(mk_seq('list', [unit(thaw_deep(it, p.args[0])) if p.op == 'u' else p for p in x.args[1]]))
        if x.op == 'q' and x.args[0] == 'tuple':
            return mk_seq('tuple', [unit(thaw_deep(it, p.args[0])) if p.op == 'u' else p for p in x.args[1]])
        if x.op == 'map':
            return it.new_dict(x)
        return x
    return it.each_leaf(t, f)
@ext('copy.deepcopy', 'copy.copy')
def _deepcopy(it, args, kwargs):
    R = I()._refs
    def f(x):
        if x.op == 'ref':
            if R[x].lazy is not None:
                r = I().new_ref(R[x].kind, R[x].cls, R[x].name, R[x].lazy)
                it.st.heap[r] = dict(it.st.heap[x])
                return r
            return thaw_deep(it, it.freeze(x))
        if x.op == 'q':
            return thaw_deep(it, it.freeze(x)) if any(p.op == 'u' and p.args[0].op == 'ref' for p in x.args[1]) else x
        if x.op in ('k', 'p', 'st', 'cls', 'fn', 'inst', 'map') or kind(x) in NUMK + ('str', 'tuple', 'list', 'map'):
            return x
        return app('copyof', it.ver(x) if x in it.st.heap[I().OST] else x)
    return it.each_leaf(args[0], f)

@ext('progressbar.progressbar')
def _pb(it, args, kwargs):
    return args[0]
@ext('time.time', 'time.perf_counter', 'time.strftime', 'time.localtime', 'time.ctime', 'datetime.datetime.now', 'time.process_time')
def _clock(it, args, kwargs):
    n = it.rd(I().WORLD, '$clock', ZERO)
    it.wr(I().WORLD, '$clock', add(n, ONE))
    return app('clock', n, *[it.freeze(a) for a in args])
@ext('os.mkdir', 'os.makedirs', 'os.remove', 'os.rename', 'os.unlink', 'os.replace', 'os.rmdir', 'shutil.copyfile', 'shutil.copy', 'shutil.move',
     'shutil.rmtree', 'os.system', 'shutil.copyfileobj')
def _fs(it, args, kwargs):
    raise AssertionError
def _mk_fs(name):
    def f(it, args, kwargs):
        it.event('$trace:fs', K(name), *it.flat_args(args, kwargs))
        v = app('ext:' + name, *it.flat_args(args, kwargs))
        it.may_raise(v)
        return NONE
    return f
for _n in list(EXT):
    if EXT[_n] is _fs:
        EXT[_n] = _mk_fs(_n)
@ext('pickle.dump', 'json.dump')
def _dump(it, args, kwargs):
    it.event('$trace:fs', K('dump'), *it.flat_args(args, {}))
    return NONE
@ext('io.StringIO', 'StringIO')
def _sio(it, args, kwargs):
    n = it.rd(I().WORLD, '$sio', ZERO)
    it.wr(I().WORLD, '$sio', add(n, ONE))
    return rawapp('StringIO', n)
@ext('csv.writer')
def _csvw(it, args, kwargs):
    return app('csv.writer', it.freeze(args[0]), *[app('kw:' + k, it.freeze(v)) for k, v in sorted(kwargs.items()) if k not in ('delimiter',)])
@ext('inspect.getmembers')
def _getmembers(it, args, kwargs):
    def f(m):
        if m.op != 'mod':
            raise Unsupported('getmembers')
        fr = I().obj(m)
        out = []
        for n in sorted(it.st.heap[fr]):
            v = it.st.heap[fr][n]
            if v is UNDEF or n.startswith('$'):
                continue
            if len(args) > 1:
                c = it.truth_of(it.call(args[1], [v], {}))
                if c is FALSE or c is BOT:
                    continue
                if c is not TRUE:
                    raise Unsupported('getmembers: undecided member %s' % n)
            out.append(unit(tup(K(n), v)))
        return mk_seq('list', out)
    return it.each_leaf(args[0], f)
@ext('globals', 'vars', 'locals')
def _globals(it, args, kwargs):
    raise Unsupported('globals()')
@ext('eval')
def _eval(it, args, kwargs):
    def f(x):
        if isk(x, 'str'):
            try:
                return it.ev(ast.parse(kval(x), mode='eval').body)
            except (SyntaxError, Unsupported):
                return app('eval', x)
        return app('eval', x)
    v = lift(f, it.freeze(args[0]))
    it.may_raise(v)
    return v
@ext('object')
def _object(it, args, kwargs):
    return rawapp('object')
