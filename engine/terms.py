"""Value-number terms: hash-consed symbolic normal forms shared by the analysed source and the reference definitions.

A term is the value number of an expression: two program points that always hold the same value (under the algebraic
laws listed in DESIGN.md) get the same, identical term.  Joins of control flow are ordered decision diagrams ("gates"),
numbers are multivariate Laurent polynomials over opaque atoms, sequences are concatenations of units, comprehension
blocks and opaque splices.  Nothing here enumerates paths or calls a solver."""
from fractions import Fraction
from decimal import Decimal, getcontext
import math
import itertools

class Unsupported(Exception):
    pass

NODE_LIMIT = 60000
getcontext().prec = 80

class T:
    __slots__ = ('op', 'args', 'id', 'h', 'fv', 'loc', '_kind')
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o
    def __lt__(self, o):
        return self.id < o.id

_table = {}
_cnt = itertools.count(1)
_EMPTY = frozenset()
CUR_LOC = [None]          # set by the interpreter: (file, line, function) in analysed source, None in a reference

def _intern(op, args, kids=(), h=0, fv=None):
    key = (op, args)
    t = _table.get(key)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op, t.args, t.id = op, args, next(_cnt)
    for k in kids:
        if k.h > h:
            h = k.h
    t.h = h
    if fv is None:
        fv = _EMPTY
        for k in kids:
            if k.fv and k.fv is not fv:
                fv = fv | k.fv
    t.fv = fv
    t.loc = CUR_LOC[0]
    t._kind = None
    _table[key] = t
    return t

# ---------------------------------------------------------------- leaves
def K(v):
    if isinstance(v, bool):
        return _intern('k', ('bool', v))
    if isinstance(v, (int, Fraction)):
        return _intern('k', ('num', Fraction(v)))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return _intern('k', ('float', repr(v)))
        return _intern('k', ('num', Fraction(repr(v))))
    if isinstance(v, str):
        return _intern('k', ('str', v))
    if v is None:
        return _intern('k', ('none', None))
    if v is Ellipsis:
        return _intern('k', ('ellipsis', None))
    if isinstance(v, bytes):
        return _intern('k', ('bytes', v))
    raise Unsupported('constant %r' % (v,))

TRUE, FALSE, NONE, ZERO, ONE = K(True), K(False), K(None), K(0), K(1)
BOT = _intern('bot', ())
UNDEF = _intern('undef', ())

def isk(t, typ=None):
    return t.op == 'k' and (typ is None or t.args[0] == typ)

def kval(t):
    return t.args[1]

def kint(t):
    """python int of an integer constant, else None"""
    if t.op == 'k' and t.args[0] == 'num' and t.args[1].denominator == 1:
        return int(t.args[1])
    if t.op == 'k' and t.args[0] == 'bool':
        return int(t.args[1])
    return None

_symshape = {}
def sym(name, shape='?'):
    """A free symbol (an input).  shape: '?', 'int', 'num', 'str', 'bool', ('list', s), ('tuple', (s...)), ('obj', cls)"""
    t = _intern('s', (name, shape))
    return t

_fresh = itertools.count(1)
def fresh(prefix, shape='?'):
    key = ('s', ('%%%s%d' % (prefix, next(_fresh)), shape))
    t = _intern(key[0], key[1], fv=None)
    t.fv = frozenset([t])
    return t

def bound(h, k):
    t = _intern('b', (h, k))
    if not t.fv:
        t.fv = frozenset([t])
        t.h = 0
    return t

# ---------------------------------------------------------------- kinds
KIND_APP = {}
NONNEG = {'len', 'abs', 'count'}
def kind(t):
    k = t._kind
    if k is None:
        k = t._kind = _kind(t)
    return k

def shape_of(t):
    if t.op == 's':
        return t.args[1]
    if t.op == 'a':
        if t.args[0] == 'at':
            s = shape_of(t.args[1])
            if isinstance(s, tuple) and s[0] in ('list', 'iter'):
                return s[1]
            if isinstance(s, tuple) and s[0] == 'tuple':
                i = kint(t.args[2])
                if i is not None and 0 <= i < len(s[1]):
                    return s[1][i]
            return '?'
        if t.args[0] in APP_SHAPE:
            return APP_SHAPE[t.args[0]]
    return kind(t)
APP_SHAPE = {}

def _kind(t):
    op = t.op
    if op == 'k':
        ty = t.args[0]
        if ty == 'num':
            return 'int' if t.args[1].denominator == 1 else 'num'
        return {'float': 'num'}.get(ty, ty)
    if op == 's':
        s = t.args[1]
        return s if isinstance(s, str) else s[0]
    if op == 'b':
        return 'int' if t.args[1] == 0 else '?'
    if op == 'p':
        for mono, c in t.args:
            if c.denominator != 1:
                return 'num'
            for a, e in mono:
                if e < 0 or kind(a) not in ('int', 'bool'):
                    return 'num'
        return 'int'
    if op == 'a':
        n = t.args[0]
        f = KIND_APP.get(n)
        if f is None:
            s = APP_SHAPE.get(n)
            if s is not None:
                return s if isinstance(s, str) else s[0]
            if n == 'at':
                s = shape_of(t)
                return s if isinstance(s, str) else s[0]
            return '?'
        return f if isinstance(f, str) else f(*t.args[1:])
    if op == 'q':
        return t.args[0]
    if op == 'x':
        return {'exists': 'bool', 'first': 'int', 'sum': 'num', 'prod': 'num'}.get(t.args[0], '?') \
            if t.args[0] != 'sum' else ('int' if kind(t.args[3][0]) == 'int' else 'num')
    if op == 'n':
        ks = {kind(c) for _, c in t.args[2]}
        ks.discard('bot')
        if len(ks) == 1:
            return ks.pop()
        if ks <= {'int', 'num', 'bool'}:
            return 'num'
        return '?'
    if op == 'st':
        return 'str'
    return op

NUMK = ('int', 'num', 'bool')
def is_num(t):
    return kind(t) in NUMK

# ---------------------------------------------------------------- decision diagrams
_grp = {}
_gcnt = itertools.count(1)
_SUB = {'V': 0, 'T': 1, 'L': 2, 'B': 3}
def _order(vt, base):
    g = _grp.get(base)
    if g is None:
        g = _grp[base] = next(_gcnt)
    return (g, _SUB[vt])

RECOG_B = None
def node(vt, base, branches):
    """branches: [(label, child)]; labels B/T: True, False; L: ascending (k, incl) bounds then None; V: consts, None."""
    _order(vt, base)
    if vt in ('B', 'T'):
        (l0, hi), (l1, lo) = branches
        if hi is lo:
            return hi
        if RECOG_B is not None:
            r = RECOG_B(base, hi, lo)
            if r is not None:
                return r
        return _mk(vt, base, ((True, hi), (False, lo)))
    if vt == 'L':
        out = []
        for lab, ch in branches:
            if out and out[-1][1] is ch:
                out[-1] = (lab, ch)
            else:
                out.append((lab, ch))
        if len(out) == 1:
            return out[0][1]
        r = _recog(base, out)
        if r is not None:
            return r
        return _mk(vt, base, tuple(out))
    # V
    d = branches[-1][1]
    out = []
    for lab, ch in branches[:-1]:
        tv = _ktruth(lab)
        if ch.op == 'n':
            ch = cofactor(ch, 'T', base, tv)
        out.append((lab, ch))
    out = [(l, c) for l, c in out if c is not d]
    if not out:
        return d
    out.sort(key=lambda lc: repr(lc[0].args))
    out.append((None, d))
    return _mk(vt, base, tuple(out))

def _ktruth(k):
    return bool(k.args[1]) if k.op == 'k' and k.args[0] != 'float' else True

_nnodes = [0]
def _mk(vt, base, br):
    kids = [c for _, c in br] + [base]
    key = ('n', (vt, base, br))
    if key not in _table:
        _nnodes[0] += 1
        if _nnodes[0] > NODE_LIMIT * 20:
            raise Unsupported('decision diagram too large')
    return _intern('n', (vt, base, br), kids)

def _recog(base, out):
    """abs / min / max spelled as a comparison"""
    if len(out) == 3 and (out[0][0][0] == out[1][0][0] or out[0][0][0] + 1 == out[1][0][0] and out[0][0][1] == 0 == out[1][0][1]
                          and kind(base) == 'int'):
        # x<k, x==k, x>k: the middle child may be either side's value at x==k
        a, m, c = out[0][1], out[1][1], out[2][1]
        k = out[0][0][0]
        if a is c and same_at(a, m, base, k):
            return a
        for side in (a, c):
            if is_plain_num(side) and is_plain_num(m):
                if subst_eq(side, base, k) is m or subst_eq(side, base, k) is subst_eq(m, base, k):
                    out = [((k, 0), a), (None, c)]
                    break
        else:
            return None
        if len(out) == 2 and out[0][1] is out[1][1]:
            return a
    if len(out) != 2:
        return None
    (b, lo), (_, hi) = out
    if not (is_plain_num(lo) and is_plain_num(hi)):
        return None
    k = b[0]
    diff = sub(hi, lo)          # value above minus value below
    q = sub(base, K(k))
    if k == 0 and hi is base and lo is neg(base):
        return app('abs', base)
    if k == 0 and lo is base and hi is neg(base):
        return neg(app('abs', base))
    # hi - lo == c*(base-k), c>0 => max, c<0 => min
    r = ratio(diff, q)
    if r is not None and r != 0 and not isk(diff):
        return app('max' if r > 0 else 'min', lo, hi)
    return None

def is_plain_num(t):
    return t.op in ('p',) or (t.op == 'k' and t.args[0] == 'num') or (t.op in ('s', 'a', 'b', 'x') and kind(t) in ('int', 'num', '?'))

def ratio(a, b):
    pa, pb = as_poly(a), as_poly(b)
    if set(pa) != set(pb) or not pa:
        return None
    rs = {pa[m] / pb[m] for m in pa}
    return rs.pop() if len(rs) == 1 else None

def subst_eq(t, base, k):
    """t with atom/poly base := k when base is linear in some atom"""
    p = as_poly(base)
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1:
            atom = m[0][0]
            rest = dict(p)
            del rest[m]
            if any(a is atom for mm in rest for a, e in mm):
                continue
            val = mul(K(1 / c), sub(K(k), from_poly(rest)))
            return psubst(t, atom, val)
    return t

def small(t, n=150):
    seen, todo = {t}, [t]
    while todo:
        if len(seen) > n:
            return False
        x = todo.pop()
        if x.op == 'p':
            ks = [a for mono, _ in x.args for a, _ in mono]
        elif x.op == 'n':
            return False
        elif x.op == 'q':
            ks = list(x.args[1])
        else:
            ks = [k for k in x.args if isinstance(k, T)]
        for k in ks:
            if k not in seen:
                seen.add(k)
                todo.append(k)
    return True

_SAME = {}
def same_at(a, m, base, k):
    """do the values a and m coincide where base == k (base an atom)?"""
    if base.op not in ('s', 'b') or not small(a) or not small(m):
        return False
    key = (a, m, base, k)
    if key not in _SAME:
        _SAME[key] = False
        v = {base: K(k)}
        try:
            _SAME[key] = _subst(a, v, None, {}) is _subst(m, v, None, {})
        except Unsupported:
            pass
    return _SAME[key]

def psubst(t, atom, val):
    r = ZERO
    for m, c in as_poly(t).items():
        x = K(c)
        for a, e in m:
            x = mul(x, power(val if a is atom else a, e))
        r = add(r, x)
    return r

def _partition(vt, terms):
    if vt in ('B', 'T'):
        return [True, False]
    if vt == 'L':
        s = sorted({lab for t in terms for lab, _ in t.args[2] if lab is not None})
        return s + [None]
    s, seen = [], set()
    for t in terms:
        for lab, _ in t.args[2]:
            if lab is not None and lab not in seen:
                seen.add(lab)
                s.append(lab)
    return s + [None]

def _pick(t, vt, base, lab):
    """branch of node t (whose variable is (vt, base)) containing region lab"""
    if vt in ('B', 'T'):
        return t.args[2][0][1] if lab else t.args[2][1][1]
    if vt == 'L':
        for l, c in t.args[2]:
            if l is None or (lab is not None and lab <= l):
                return c
    for l, c in t.args[2]:
        if l is None or l is lab:
            return c

def cofactor(t, vt, base, lab, memo=None):
    if t.op != 'n':
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    v2, b2, br = t.args
    if v2 == vt and b2 is base:
        r = cofactor(_pick(t, vt, base, lab), vt, base, lab, memo)
    elif _order(v2, b2) > _order(vt, base):
        r = t
    else:
        r = node(v2, b2, [(l, cofactor(c, vt, base, lab, memo)) for l, c in br])
    memo[t] = r
    return r

def top(ts):
    best = None
    for t in ts:
        if t.op == 'n':
            o = _order(t.args[0], t.args[1])
            if best is None or o < best[0]:
                best = (o, t.args[0], t.args[1])
    return best

def lift(f, *ts):
    if not any(t.op == 'n' for t in ts):
        return f(*ts)
    memo = {}
    def rec(ts):
        b = top(ts)
        if b is None:
            for t in ts:
                if t is BOT:
                    return BOT
            return f(*ts)
        if ts in memo:
            return memo[ts]
        _, vt, base = b
        same = [t for t in ts if t.op == 'n' and t.args[0] == vt and t.args[1] is base]
        br = []
        for lab in _partition(vt, same):
            sub_ = tuple(_pick(t, vt, base, lab) if (t.op == 'n' and t.args[0] == vt and t.args[1] is base) else
                         (cofactor(t, 'T', base, _ktruth(lab)) if vt == 'V' and lab is not None else t) for t in ts)
            br.append((lab, rec(sub_)))
        o = _order(vt, base)
        if any(c.op == 'n' and _order(c.args[0], c.args[1]) <= o for _, c in br):
            r = _shannon(vt, base, [l for l, _ in br], [c for _, c in br])
        else:
            r = node(vt, base, br)
        memo[ts] = r
        if len(memo) > NODE_LIMIT:
            raise Unsupported('decision diagram too large')
        return r
    return rec(tuple(ts))

def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    memo = {}
    def rec(c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if c is BOT:
            return BOT
        if a is b:
            return a
        key = (c, a, b)
        r = memo.get(key)
        if r is not None:
            return r
        if c.op != 'n':
            raise Unsupported('condition is not boolean: %s' % show(c, 4))
        _, vt, base = top(key)
        same = [t for t in key if t.op == 'n' and t.args[0] == vt and t.args[1] is base]
        br = []
        for lab in _partition(vt, same):
            s = [_pick(t, vt, base, lab) if (t.op == 'n' and t.args[0] == vt and t.args[1] is base) else
                 (cofactor(t, 'T', base, _ktruth(lab)) if vt == 'V' and lab is not None else t) for t in key]
            br.append((lab, rec(*s)))
        r = node(vt, base, br)
        memo[key] = r
        if len(memo) > NODE_LIMIT:
            raise Unsupported('decision diagram too large')
        return r
    return rec(c, a, b)

def b_not(a):
    return ite(a, FALSE, TRUE)
def b_and(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
        if r is FALSE:
            return r
    return r
def b_or(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
        if r is TRUE:
            return r
    return r
def implies(a, b):
    return b_and(a, b_not(b)) is FALSE

def batom(t):
    return node('B', t, [(True, TRUE), (False, FALSE)])

def leaves(t, seen=None, out=None):
    if seen is None:
        seen, out = set(), []
    if t in seen:
        return out
    seen.add(t)
    if t.op == 'n':
        for _, c in t.args[2]:
            leaves(c, seen, out)
    else:
        out.append(t)
    return out

def cond_of(t, pred):
    """condition (diagram) under which the leaf of t satisfies pred"""
    memo = {}
    def rec(t):
        if t.op != 'n':
            return TRUE if pred(t) else FALSE
        r = memo.get(t)
        if r is None:
            r = memo[t] = node(t.args[0], t.args[1], [(l, rec(c)) for l, c in t.args[2]])
        return r
    return rec(t)

def mapleaves(f, t):
    return lift(f, t)

def under(t, c):
    """t simplified under the condition c (values outside c are irrelevant)"""
    if t.op != 'n' or c is TRUE:
        return t
    r = ite(c, t, BOT)
    memo = {}
    def rec(x):
        if x.op != 'n':
            return x
        if x in memo:
            return memo[x]
        ch = [(l, rec(k)) for l, k in x.args[2]]
        live = [k for _, k in ch if k is not BOT]
        if not live:
            y = BOT
        elif all(k is live[0] for k in live):
            y = live[0]
        else:
            # replace dead branches by a neighbour so that the test disappears when it is decided by c
            if x.args[0] == 'L':
                prev = None
                new = []
                for l, k in ch:
                    if k is BOT:
                        k = prev
                    else:
                        prev = k
                    new.append([l, k])
                nxt = None
                for e in reversed(new):
                    if e[1] is None:
                        e[1] = nxt
                    nxt = e[1]
                ch = [tuple(e) for e in new]
            elif x.args[0] == 'V' and ch[-1][1] is not BOT:
                ch = [(l, ch[-1][1] if k is BOT else k) for l, k in ch]
            elif x.args[0] == 'V':
                ch = ch[:-1] + [(None, live[-1])]
                ch = [(l, live[-1] if k is BOT else k) for l, k in ch]
            y = node(x.args[0], x.args[1], ch)
        memo[x] = y
        return y
    return rec(r)

# ---------------------------------------------------------------- numbers
def as_poly(t):
    if t.op == 'p':
        return dict(t.args)
    if t.op == 'k':
        if t.args[0] == 'num':
            return {(): t.args[1]} if t.args[1] != 0 else {}
        if t.args[0] == 'bool':
            return {(): Fraction(1)} if t.args[1] else {}
    return {((t, 1),): Fraction(1)}

def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return K(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    args = tuple(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    kids = {a for m, _ in args for a, _ in m}
    return _intern('p', args, tuple(kids))

_INF = _intern('k', ('float', 'inf'))
def _bad(*ts):
    return next((t for t in ts if t.op in ('bot', 'undef') or (t.op == 'k' and t.args[0] not in ('num', 'bool', 'float'))), None)

def add(a, b):
    return lift(_add, a, b)
def _add(a, b):
    if a is ZERO and is_num(b) and kind(b) != 'bool':
        return b
    if b is ZERO and is_num(a) and kind(a) != 'bool':
        return a
    if _bad(a, b) is not None:
        return BOT
    d = as_poly(a)
    for m, c in as_poly(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)

def neg(a):
    return mul(K(-1), a)
def sub(a, b):
    return add(a, neg(b))

def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: ae[0].id))

def mul(a, b):
    return lift(_mul, a, b)
def _mul(a, b):
    if _bad(a, b) is not None:
        return BOT
    pa, pb = as_poly(a), as_poly(b)
    if len(pa) * len(pb) > 4000:
        raise Unsupported('polynomial too large')
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _cancel(from_poly(d))

def _cancel(t):
    """p * inv(p) = 1"""
    if t.op != 'p':
        return t
    invs = {a for m, _ in t.args for a, e in m if a.op == 'a' and a.args[0] == 'inv' and e > 0}
    for iv in invs:
        base = iv.args[1]
        q = {}
        rest = {}
        for m, c in t.args:
            md = dict(m)
            if iv in md:
                if md[iv] != 1:
                    rest[m] = c
                    continue
                del md[iv]
                q[tuple(sorted(md.items(), key=lambda ae: ae[0].id))] = c
            else:
                rest[m] = c
        # q divisible by base?
        r = poly_div(q, as_poly(base))
        if r is not None:
            d = dict(rest)
            for m, c in r.items():
                d[m] = d.get(m, 0) + c
            return _cancel(from_poly(d))
    return t

def poly_div(q, b):
    """exact division of polynomial dicts, or None"""
    if not b:
        return None
    lead = max(b, key=lambda m: tuple((-a.id, e) for a, e in m) if m else ())
    order = lambda m: (sum(e for _, e in m), tuple((-a.id, e) for a, e in m))
    lead = max(b, key=order)
    q = dict(q)
    out = {}
    for _ in range(200):
        q = {m: c for m, c in q.items() if c != 0}
        if not q:
            return out
        m = max(q, key=order)
        dm = dict(m)
        for a, e in lead:
            if dm.get(a, 0) < e:
                return None
            dm[a] -= e
        mm = tuple(sorted(((a, e) for a, e in dm.items() if e), key=lambda ae: ae[0].id))
        c = q[m] / b[lead]
        out[mm] = out.get(mm, 0) + c
        for bm, bc in b.items():
            k = _mmul(mm, bm)
            q[k] = q.get(k, 0) - c * bc
    return None

def inv(a):
    return lift(_inv, a)
def _inv(a):
    if _bad(a) is not None:
        return BOT
    p = as_poly(a)
    if not p:
        return app('divzero')
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((x, -e) for x, e in m): 1 / c})
    # normalise by the leading coefficient and by the common monomial
    lead = max(p, key=lambda m: tuple((x.id, e) for x, e in m))
    c = p[lead]
    q = from_poly({m: v / c for m, v in p.items()})
    return mul(K(1 / c), _intern('a', ('inv', q), (q,)))

def div(a, b):
    return mul(a, inv(b))

def power(a, e):
    if isinstance(e, int):
        if e == 1:
            return a
        e = K(e)
    return lift(_power, a, e)
def _power(a, e):
    if _bad(a, e) is not None:
        return BOT
    n = kint(e) if isinstance(e, T) else e
    if n is not None and abs(n) <= 12:
        if isk(a, 'num') and (n >= 0 or kval(a) != 0):
            return K(kval(a) ** n)
        r = ONE
        base = a if n >= 0 else inv(a)
        for _ in range(abs(n)):
            r = mul(r, base)
        return r
    if n is not None and abs(n) <= 2000 and isk(a, 'num') and kval(a) != 0:
        return K(kval(a) ** n)
    if isinstance(e, int):
        e = K(e)
    if isk(e, 'num') and kval(e) == Fraction(1, 2):
        return app('sqrt', a)
    if a is ONE:
        return ONE
    # constant offset in the exponent: x**(n+1) = x * x**n
    p = as_poly(e)
    c = p.get((), 0)
    if c != 0 and c.denominator == 1 and abs(c) <= 12 and len(p) > 1:
        rest = from_poly({m: v for m, v in p.items() if m != ()})
        return mul(_power(a, K(int(c))), _power(a, rest))
    return _intern('a', ('pow', a, e), (a, e))

def lead_sign(t):
    p = as_poly(t)
    m = max((m for m in p), key=lambda m: tuple((x.id, e) for x, e in m))
    return p[m]

def is_nonneg(t):
    if t.op == 'k':
        return t.args[0] == 'num' and t.args[1] >= 0
    if t.op == 'b':
        return t.args[1] == 0
    if t.op == 'a' and t.args[0] in NONNEG:
        return True
    if t.op == 'x' and t.args[0] == 'first':
        return True
    if t.op == 's' and t.args[0].startswith('%ix'):
        return True
    if t.op == 'p':
        return all(c > 0 and all(is_nonneg(a) or e % 2 == 0 for a, e in m) for m, c in t.args)
    if t.op == 'a' and t.args[0] in ('min', 'max'):
        return all(is_nonneg(x) for x in t.args[1:])
    return False

# ---------------------------------------------------------------- comparisons
def _lin(q):
    """q (poly) -> (base, scale, const): q = scale*base + const"""
    p = as_poly(q)
    c = p.pop((), Fraction(0))
    m = max(p, key=lambda m: tuple((x.id, e) for x, e in m))
    s = p[m]
    base = from_poly({k: v / s for k, v in p.items()})
    # integral bases: keep integer coefficients so that kinds survive
    if any(v.denominator != 1 for v in as_poly(base).values()):
        import math
        l = 1
        for v in as_poly(base).values():
            l = l * v.denominator // math.gcd(l, v.denominator)
        base = mul(K(l), base)
        s = s / l
    return base, s, c

_CONST = {}
def const_num(t):
    """interval-free numeric value (60 digits) of a term built from constants only, or None"""
    if t in _CONST:
        return _CONST[t]
    r = None
    try:
        if t.op == 'k' and t.args[0] == 'num':
            r = Decimal(t.args[1].numerator) / Decimal(t.args[1].denominator)
        elif t.op == 'p':
            r = Decimal(0)
            for m, c in t.args:
                x = Decimal(c.numerator) / Decimal(c.denominator)
                for a, e in m:
                    v = const_num(a)
                    if v is None:
                        x = None
                        break
                    x *= v ** e
                if x is None:
                    r = None
                    break
                r += x
        elif t.op == 'a' and len(t.args) == 2 and t.args[0] in ('log', 'sqrt', 'exp', 'abs'):
            v = const_num(t.args[1])
            if v is not None:
                r = v.ln() if t.args[0] == 'log' else v.sqrt() if t.args[0] == 'sqrt' else v.exp() if t.args[0] == 'exp' else abs(v)
    except ArithmeticError:
        r = None
    _CONST[t] = r
    return r

def _region(base, k, incl):
    """diagram for base <= k (incl) or base < k"""
    if base.op in ('p', 'a') and not base.fv:
        v = const_num(base)
        if v is not None and abs(v - Decimal(k.numerator) / Decimal(k.denominator)) > Decimal(10) ** -30:
            return K(v < Decimal(k.numerator) / Decimal(k.denominator))
    if base.op == 'a' and base.args[0] == 'abs' and is_plain_num(base.args[1]):
        if k < 0 or k == 0 and not incl:
            return FALSE
        x, kk = base.args[1], K(k)
        return b_and(le(x, kk), le(K(-k), x)) if incl else b_and(lt(x, kk), lt(K(-k), x))
    if base.op == 'a' and base.args[0] in ('max', 'min') and any(isk(x, 'num') for x in base.args[1:]):
        cs = [le(x, K(k)) if incl else lt(x, K(k)) for x in base.args[1:]]
        return b_and(*cs) if base.args[0] == 'max' else b_or(*cs)
    if base.op == 'p' and len(base.args) == 1 and (k == 0 or k == 1 and not incl and kind(base) == 'int'):
        # sign of a product: signs of its factors
        (m, _), = base.args
        neg, zero = FALSE, FALSE
        for a, e in m:
            zero = b_or(zero, eq(a, ZERO)) if e > 0 else zero
            if e % 2:
                neg = ite(lt(a, ZERO), b_not(neg), neg)
        return b_or(neg, zero) if incl or k == 1 else b_and(neg, b_not(zero))
    if kind(base) == 'int':
        if k.denominator != 1:
            import math
            k, incl = Fraction(math.ceil(k)), 0
        elif incl:
            k, incl = k + 1, 0
        if is_nonneg(base) and k <= 0:
            return FALSE
        if k <= 1 and base.op == 'a' and base.args[0] == 'len' and base.args[1].op == 'a' and base.args[1].args[0] in ('coeffs', 'qcoeffs'):
            return FALSE        # at least the free coefficient
    elif is_nonneg(base) and (k < 0 or (k == 0 and not incl)):
        return FALSE
    return node('L', base, [((k, 1 if incl else 0), TRUE), (None, FALSE)])

def lt(a, b):
    return lift(_lt, a, b)
def _lt(a, b, incl=False):
    if a is b:
        return TRUE if incl else FALSE
    for t in (a, b):
        if t.op == 'k' and t.args[0] not in ('num', 'bool'):
            if isk(a, 'str') and isk(b, 'str'):
                return K(kval(a) <= kval(b) if incl else kval(a) < kval(b))
            return batom(_intern('a', ('le' if incl else 'lt', a, b), (a, b)))
        if t.op in ('bot', 'undef'):
            return BOT
        if t.op in ('q', 'st', 'map', 'set') or kind(t) == 'str':
            return batom(_intern('a', ('le' if incl else 'lt', a, b), (a, b)))
    q = sub(a, b)
    if q.op == 'n':
        return lift(lambda x: _lt(x, ZERO, incl), q)
    if q.op == 'k':
        v = kval(q)
        return K(v <= 0 if incl else v < 0)
    base, s, c = _lin(q)
    # s*base + c < 0
    if s > 0:
        return _region(base, -c / s, incl)
    r = _region(base, -c / s, not incl)
    return b_not(r)
def le(a, b):
    return lift(lambda x, y: _lt(x, y, True), a, b)

NONNUM = ('str', 'none', 'list', 'tuple', 'gen', 'view', 'q', 'map', 'cls', 'fn', 'mod', 'ref', 'st', 'bytes', 'set', 'obj', 'bm')
def eq(a, b):
    return lift(_eq, a, b)
def _eq(a, b):
    if a is b:
        return TRUE
    if a.op in ('bot', 'undef') or b.op in ('bot', 'undef'):
        return BOT
    ka, kb = kind(a), kind(b)
    if a.op == 'k' and b.op == 'k':
        if ka in NUMK and kb in NUMK:
            return K(kint(a) == kint(b) if None not in (kint(a), kint(b)) else kval(a) == kval(b))
        return FALSE
    if a.op in ('cls', 'fn', 'mod', 'bi') and b.op in ('cls', 'fn', 'mod', 'bi'):
        return FALSE
    if a.op in ('cls', 'fn', 'mod', 'ref', 'bi') and b.op == 'k' or b.op in ('cls', 'fn', 'mod', 'ref', 'bi') and a.op == 'k':
        return FALSE
    sa, sb = (x.op == 'q' for x in (a, b))
    if sa and sb:
        if a.args[0] != b.args[0] and {a.args[0], b.args[0]} <= {'list', 'tuple'}:
            return FALSE
        if all(p.op == 'u' for p in a.args[1] + b.args[1]):
            if len(a.args[1]) != len(b.args[1]):
                return FALSE
            return b_and(*[eq(x.args[0], y.args[0]) for x, y in zip(a.args[1], b.args[1])])
    if (sa and b.op == 'k') or (sb and a.op == 'k'):
        return FALSE
    if b.op == 'k' and b.args[0] in ('str', 'none', 'bool', 'bytes') or a.op == 'k' and a.args[0] in ('str', 'none', 'bool', 'bytes'):
        if a.op == 'k':
            a, b, ka, kb = b, a, kb, ka
        if kb == 'none' and ka not in ('?', 'at'):
            return FALSE
        if kb == 'str' and a.op == 'a' and (a.args[0] == 'nstr' or a.args[0] == 'slice_str' and a.args[1].op == 'a' and a.args[1].args[0] == 'nstr') \
                and not set(kval(b)) <= set('0123456789+-.einfaj ()'):
            return FALSE
        if kb == 'str' and ka in NUMK + ('list', 'tuple', 'none'):
            return FALSE
        if kb == 'bool' and ka == 'bool':
            return a if b is TRUE else b_not(a)
        if kb == 'bool' and ka in NUMK:
            b = K(int(kval(b)))
        else:
            if kb == 'str' and (a.op == 'st' or int_text(a) is not None):
                r = st_eq(a, b)
                if r is not None:
                    return r
            return node('V', a, [(b, TRUE), (None, FALSE)])
    if isk(a, 'float') and b.op in ('s', 'b', 'a', 'x') or isk(b, 'float') and a.op in ('s', 'b', 'a', 'x'):
        return FALSE        # inputs are finite
    if ka in NONNUM and kb in NUMK or kb in NONNUM and ka in NUMK:
        return FALSE
    if a.op == 'k' and a.args[0] == 'float' and kb in NUMK or b.op == 'k' and b.args[0] == 'float' and ka in NUMK:
        return FALSE        # computed numbers are finite
    if ka in NONNUM or kb in NONNUM:
        if a.op == 'q' or b.op == 'q':
            a, b = [mk_seq('list' if x.args[0] == 'gen' else x.args[0], x.args[1]) if x.op == 'q' else x for x in (a, b)]
            for u, v in ((a, b), (b, a)):
                c = coeffs_of(u)
                if c is not None and v.op == 'q' and v.args[0] == 'list' and len(v.args[1]) == 1 and v.args[1][0].op == 'u' and v.args[1][0].args[0] is ZERO:
                    return batom(rawapp('pzero', c.args[1]))
        x, y = sorted((a, b), key=lambda t: t.id)
        return batom(_intern('a', ('eq', x, y), (x, y)))
    q = sub(a, b)
    if q.op == 'n':
        return eq(q, ZERO)
    if q.op == 'k':
        return K(kval(q) == 0)
    base, s, c = _lin(q)
    k = -c / s
    return b_and(_region(base, k, 1), b_not(_region(base, k, 0)))

def coeffs_of(t):
    """the term coeffs(v) when t is the list of all coefficients of a polynomial v"""
    if t.op == 'q' and t.args[0] == 'list' and len(t.args[1]) == 1 and t.args[1][0].op == 'sp':
        t = t.args[1][0].args[0]
    return t if t.op == 'a' and t.args[0] in ('coeffs', 'qcoeffs') else None

def int_text(t):
    """the integer whose decimal text t is, or None"""
    if t.op == 'a' and t.args[0] == 'fmt' and kind(t.args[1]) == 'int' and t.args[2].op == 'k' and t.args[2].args[1] == '':
        return t.args[1]
    return None

def st_eq(a, b):
    """string template against a constant: decided when a fixed prefix or suffix differs, or no integers in the holes give the constant"""
    v = kval(b)
    parts = a.args if a.op == 'st' else (a,)
    if isk(parts[0], 'str') and not v.startswith(kval(parts[0])):
        return FALSE
    if isk(parts[-1], 'str') and not v.endswith(kval(parts[-1])):
        return FALSE
    if all(isk(p, 'str') or int_text(p) is not None for p in parts):
        import re
        if not re.fullmatch(''.join(re.escape(kval(p)) if isk(p, 'str') else '-?[0-9]+' for p in parts), v):
            return FALSE
        if len(parts) == 1:
            return eq(int_text(a), K(int(v))) if str(int(v)) == v else FALSE
    return None

def st_untouched(x, pat):
    """no occurrence of the text pat in the template x can reach into one of its holes"""
    parts = x.args if x.op == 'st' else (x,)
    if not all(isk(p, 'str') or int_text(p) is not None for p in parts):
        return False
    for h, p in enumerate(parts):
        if isk(p, 'str'):
            continue
        for i in range(len(pat)):
            for j in range(i + 1, len(pat) + 1):
                if not set(pat[i:j]) <= set('-0123456789'):
                    break
                before, after = pat[:i], pat[j:]
                if before:
                    if h == 0:
                        continue
                    q = parts[h - 1]
                    if isk(q, 'str') and not (kval(q).endswith(before) or before.endswith(kval(q))):
                        continue
                if after:
                    if h + 1 == len(parts):
                        continue
                    q = parts[h + 1]
                    if isk(q, 'str') and not (kval(q).startswith(after) or after.startswith(kval(q))):
                        continue
                return False
    return True

def truth(t):
    return lift(_truth, t)
def _truth(t):
    if t.op == 'k':
        return K(_ktruth(t))
    if t.op in ('bot', 'undef'):
        return BOT
    if t.op in ('cls', 'fn', 'mod', 'bi', 'bm') or t.op == 'a' and t.args[0] in ('rematch', 'repat'):
        return TRUE
    if t.op == 'q':
        return seq_nonempty(t)
    if int_text(t) is not None:
        return TRUE
    if t.op == 'st':
        if any(isk(p, 'str') and kval(p) for p in t.args):
            return TRUE
        return node('T', t, [(True, TRUE), (False, FALSE)])
    if t.op == 'map':
        if t.args[1]:
            return TRUE
        if t.args[0] is None:
            return FALSE
    k = kind(t)
    if k == 'bool':
        return batom(t)
    if k in NUMK:
        return b_not(eq(t, ZERO))
    if k in ('list', 'tuple', 'gen', 'view', 'iter'):
        return lt(ZERO, app('len', t))
    if k == 'obj':
        return TRUE
    return node('T', t, [(True, TRUE), (False, FALSE)])

# ---------------------------------------------------------------- applications
SMART = {}
def smart(name):
    def d(f):
        SMART[name] = f
        return f
    return d

BOOL_APPS = set()
def app(name, *args):
    """application of an uninterpreted (or smart) pure function; gates are moved outward"""
    if any(a.op == 'n' for a in args):
        return lift(lambda *xs: app(name, *xs), *args)
    for a in args:
        if a is BOT:
            return BOT
    f = SMART.get(name)
    if f is not None:
        r = f(*args)
        if r is not None:
            return r
    t = _intern('a', (name,) + args, args)
    if name in BOOL_APPS:
        return batom(t)
    return t

def rawapp(name, *args):
    return _intern('a', (name,) + args, args)

for _n in ('isnormal', 'isnan', 'isinf', 'isint', 'in', 'isinstance', 'issubclass', 'hasattr', 'raises', 'contains',
           'eq', 'startswith', 'endswith', 'os.path.isdir', 'os.path.exists', 'os.path.isfile', 'is', 'is_integer'):
    BOOL_APPS.add(_n)
    KIND_APP[_n] = 'bool'
for _n in ('len', 'int', 'floordiv_int', 'count', 'index', 'ceil', 'floor', 'divmod0'):
    KIND_APP[_n] = 'int'
for _n in ('str', 'fmt', 'join', 'replace', 'lower', 'upper', 'strip', 'nstr', 'os.path.join', 'repr', 'os.path.basename',
           'time.strftime', 'slice_str'):
    KIND_APP[_n] = 'str'
for _n in ('sqrt', 'exp', 'log', 'nint', 'inv', 'float', 'mpf', 'sin', 'cos', 'divzero', 'round'):
    KIND_APP[_n] = 'num'
KIND_APP['abs'] = lambda x: 'int' if kind(x) == 'int' else 'num'
KIND_APP['pow'] = lambda x, e: 'int' if kind(x) == 'int' and kind(e) == 'int' and is_nonneg(e) else 'num'
KIND_APP['min'] = KIND_APP['max'] = lambda *xs: 'int' if all(kind(x) == 'int' for x in xs) else 'num'
KIND_APP['mod'] = KIND_APP['floordiv'] = lambda a, b: 'int' if kind(a) == 'int' and kind(b) == 'int' else 'num'

@smart('isnormal')
def _isnormal(x):
    if isk(x, 'float'):
        return FALSE
    if isk(x, 'num'):
        return K(kval(x) != 0)
    if x.op == 'a' and x.args[0] == 'abs':
        return app('isnormal', x.args[1])
    if x.op == 'p':
        c = x.args[-1][1]
        if c != 1:
            return app('isnormal', mul(K(1 / c), x))
    return None
@smart('isnan')
def _isnan(x):
    if x.op == 'k':
        return K(x.args[0] == 'float' and kval(x) != kval(x))
    return None
@smart('sqrt')
def _sqrt(x):
    if isk(x, 'num') and not isinstance(kval(x), bool) and kval(x) >= 0:
        v = Fraction(kval(x))
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return K(Fraction(n, d))
    return None

@smart('isint')
def _isint(x):
    if isk(x, 'num') and not isinstance(kval(x), bool):
        return K(Fraction(kval(x)).denominator == 1)
    if x.op in ('p', 'a') and kind(x) == 'num':
        ms = [m for m in as_poly(x) if m != ()]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            a = ms[0][0][0]
            if a.op == 'a' and a.args[0] == 'sqrt' and isk(a.args[1], 'num') and kval(a.args[1]) > 0:
                return FALSE        # a rational number and an irrational one
    return None

@smart('abs')
def _abs(x):
    if isk(x, 'num'):
        return K(abs(kval(x)))
    if isk(x, 'bool'):
        return K(kint(x))
    if is_nonneg(x):
        return x
    if x.op == 'k':
        return None
    p = as_poly(x)
    m = max(p, key=lambda m: tuple((a.id, e) for a, e in m))
    c = p[m]
    if c != 1:
        base = mul(K(1 / c), x)
        return mul(K(abs(c)), app('abs', base))
    return None

def _minmax(name, f):
    def g(*xs):
        if len(xs) == 1:
            return None
        flat = []
        for x in xs:
            flat += list(x.args[1:]) if (x.op == 'a' and x.args[0] == name) else [x]
        ks = [x for x in flat if isk(x, 'num')]
        rest = sorted({x for x in flat if not isk(x, 'num')}, key=lambda t: t.id)
        if ks:
            rest.append(K(f(kval(k) for k in ks)))
        if len(rest) == 1:
            return rest[0]
        return _intern('a', (name,) + tuple(rest), tuple(rest))
    return g
SMART['min'] = _minmax('min', min)
SMART['max'] = _minmax('max', max)

def _rounded(name, f):
    def g(x):
        if isk(x, 'num'):
            return K(f(kval(x)))
        if kind(x) == 'int':
            return x
        if x.op in ('p', 'a') and not x.fv:
            v = const_num(x)
            if v is not None and abs(v - v.to_integral_value()) > Decimal(10) ** -30:
                return K(f(v))
    return g
SMART['ceil'], SMART['floor'] = _rounded('ceil', math.ceil), _rounded('floor', math.floor)

@smart('int')
def _int(x):
    if kind(x) == 'int':
        return x
    if isk(x, 'num'):
        v = kval(x)
        return K(int(v))
    if isk(x, 'bool'):
        return K(kint(x))
    if isk(x, 'str'):
        try:
            return K(int(kval(x)))
        except ValueError:
            return None
    if x.op == 'a' and x.args[0] in ('nint', 'ceil', 'floor'):
        return None
    return None

@smart('float')
def _float(x):
    if isk(x, 'num'):
        return x
    return None

@smart('mod')
def _mod(a, b):
    ka, kb = kint(a), kint(b)
    if ka is not None and kb:
        return K(ka % kb)
    if kb == 1 and kind(a) == 'int':
        return ZERO
    if kb and a.op == 'p' and kind(a) == 'int':
        # drop multiples of the constant modulus
        d = {m: Fraction(int(c) % kb) for m, c in a.args}
        r = from_poly(d)
        if r is not a:
            return app('mod', r, b)
    return None

@smart('floordiv')
def _floordiv(a, b):
    if isk(a, 'num') and isk(b, 'num') and kval(b) != 0:
        return K(kval(a) // kval(b))
    if b is ONE and kind(a) == 'int':
        return a
    return None

@smart('len')
def _len(s):
    if s.op == 'q':
        return seq_len(s)
    if isk(s, 'str'):
        return K(len(kval(s)))
    if s.op == 'map' and s.args[0] is None:
        return K(len(s.args[1]))
    sh = shape_of(s)
    if isinstance(sh, tuple) and sh[0] == 'tuple':
        return K(len(sh[1]))
    if s.op == 'a' and s.args[0] == 'iter' and s.args[1].op == 'q':
        return seq_len(s.args[1])
    return None

@smart('at')
def _at(s, i):
    n = kint(i)
    if s.op == 'q':
        return seq_at(s, i)
    if isk(s, 'str') and n is not None and -len(kval(s)) <= n < len(kval(s)):
        return K(kval(s)[n])
    if n is not None and n < 0:
        l = app('len', s)
        return app('at', s, add(l, i))
    sh = shape_of(s)
    if isinstance(sh, tuple) and sh[0] in ('list', 'iter', 'tuple'):
        e = None
        if sh[0] == 'tuple':
            if n is not None and n < len(sh[1]):
                e = sh[1][n]
        else:
            e = sh[1]
        if isinstance(e, tuple) and e[0] == 'tuple':
            base = _intern('a', ('at', s, i), (s, i))
            return mk_seq('tuple', [unit(app('at', base, K(j))) for j in range(len(e[1]))])
    if s.op == 'a' and s.args[0] == 'reversed':
        return app('at', s.args[1], sub(sub(app('len', s.args[1]), ONE), i))
    return None

# ---------------------------------------------------------------- sequences
def unit(e):
    return _intern('u', (e,), (e,))
def splice(t):
    return _intern('sp', (t,), (t,))

def mk_seq(stype, pieces):
    """pieces: units, flats ('x','flat'), splices.  Gates in units are moved outward while that stays small."""
    pieces = list(pieces)
    out = []
    for p in pieces:
        if p.op == 'sp' and p.args[0].op == 'q':
            out += list(p.args[0].args[1])
        elif p.op == 'sp' and p.args[0].op == 'n':
            # distribute
            idx = len(out)
            rest = pieces[pieces.index(p) + 1:]
            return lift(lambda x: mk_seq(stype, out + [splice(x)] + rest), p.args[0])
        elif p is BOT:
            return BOT
        else:
            out.append(p)
    n = 1
    gated = [p for p in out if p.op == 'u' and p.args[0].op == 'n']
    for p in gated:
        n *= len(leaves(p.args[0]))
    if gated and n <= 256:
        elems = [p.args[0] if p.op == 'u' else p for p in out]
        isu = [p.op == 'u' for p in out]
        return lift(lambda *xs: _intern('q', (stype, tuple(unit(x) if u else x for x, u in zip(xs, isu))),
                                        tuple(xs)), *elems)
    if any(p.op == 'u' and p.args[0] is BOT for p in out):
        return BOT
    return _intern('q', (stype, tuple(out)), tuple(out))

def tup(*xs):
    return mk_seq('tuple', [unit(x) for x in xs])
def lst(*xs):
    return mk_seq('list', [unit(x) for x in xs])

def as_pieces(t):
    """pieces of a (gate-free) sequence-like leaf"""
    if t.op == 'q':
        return list(t.args[1])
    if t.op == 'k' and t.args[0] == 'str':
        return [unit(K(c)) for c in kval(t)]
    return [splice(t)]

def seq_retype(t, stype):
    return lift(lambda x: mk_seq(stype, as_pieces(x)), t)

def seq_concat(stype, *ts):
    return lift(lambda *xs: mk_seq(stype, [p for x in xs for p in as_pieces(x)]), *ts)

def seq_len(s):
    r = ZERO
    for p in s.args[1]:
        if p.op == 'u':
            r = add(r, ONE)
        elif p.op == 'sp':
            r = add(r, app('len', p.args[0]))
        else:
            cnt, ix, _, body = open_x(p)
            r = add(r, mk_x('sum', cnt, ix, [], [], [lift(lambda x: seq_len(x), body[0])]))
    return r

def seq_nonempty(s):
    r = FALSE
    for p in s.args[1]:
        if p.op == 'u':
            return TRUE
        if p.op == 'sp':
            r = b_or(r, truth(p.args[0]) if kind(p.args[0]) in ('list', 'tuple') else lt(ZERO, app('len', p.args[0])))
        else:
            cnt, ix, _, body = open_x(p)
            r = b_or(r, mk_x('exists', cnt, ix, [], [], [lift(lambda x: seq_nonempty(x), body[0])]))
    return r

def simple_flat(p):
    """flat block that contributes exactly one element per index -> (count, ix, elem) (opened)"""
    cnt, ix, _, (body,) = open_x(p)
    if all(l.op == 'q' and len(l.args[1]) == 1 and l.args[1][0].op == 'u' for l in leaves(body)):
        return cnt, ix, lift(lambda x: x.args[1][0].args[0], body)
    return None

def seq_at(s, i):
    n = kint(i)
    ps = s.args[1]
    if n is not None:
        if n >= 0:
            for p in ps:
                if p.op == 'u':
                    if n == 0:
                        return p.args[0]
                    n -= 1
                elif p.op == 'sp' and p is ps[-1]:
                    return app('at', p.args[0], K(n))
                elif p.op == 'x':
                    sf = simple_flat(p)
                    if sf and p is ps[-1]:
                        return subst(sf[2], {sf[1]: K(n)})
                    break
                else:
                    break
            else:
                return rawapp('indexerror')
        else:
            m = -n
            for p in reversed(ps):
                if p.op == 'u':
                    m -= 1
                    if m == 0:
                        return p.args[0]
                elif p.op == 'sp' and p is ps[0]:
                    return app('at', p.args[0], K(-m))
                elif p.op == 'x' and p is ps[0]:
                    sf = simple_flat(p)
                    if sf:
                        return subst(sf[2], {sf[1]: sub(sf[0], K(m))})
                    break
                else:
                    break
            else:
                return rawapp('indexerror')
    elif len(ps) == 1 and ps[0].op == 'x':
        sf = simple_flat(ps[0])
        if sf:
            return subst(sf[2], {sf[1]: i})
    elif len(ps) == 1 and ps[0].op == 'sp':
        return app('at', ps[0].args[0], i)
    elif len(ps) >= 1 and all(p.op == 'u' for p in ps) and kind(i) == 'int' and len(ps) <= 32:
        # symbolic index into a literal
        r = rawapp('indexerror')
        for j in reversed(range(len(ps))):
            r = ite(eq(i, K(j)), ps[j].args[0], r)
        if r.op != 'n' or True:
            return r
    return rawapp('at', s, i)

# ---------------------------------------------------------------- binders
def _xintern(name, count, inits, bodies):
    kids = (count,) + tuple(inits) + tuple(bodies)
    h = 1 + max([b.h for b in bodies] or [0])
    fv = count.fv
    for k in inits:
        fv = fv | k.fv
    bs = frozenset(bound(h, j) for j in range(len(inits) + 1))
    for b in bodies:
        fv = fv | (b.fv - bs)
    t = _intern('x', (name, count, tuple(inits), tuple(bodies)), kids, h=h, fv=fv)
    t.h = max([h] + [k.h for k in kids])
    # the binder's own level must be recoverable
    _level[t] = h
    return t
_level = {}

def mk_x(name, count, ix, phis, inits, bodies):
    """close a binder: ix and phis are free symbols of bodies"""
    f = XSMART.get(name)
    if f is not None:
        r = f(count, ix, phis, inits, bodies)
        if r is not None:
            return r
    return raw_x(name, count, ix, phis, inits, bodies)

def raw_x(name, count, ix, phis, inits, bodies):
    # gates in count / inits move outward
    if count.op == 'n' or any(i.op == 'n' for i in inits):
        return lift(lambda c, *ii: mk_x(name, c, ix, phis, list(ii), bodies), count, *inits)
    h = 1 + max([b.h for b in bodies] or [0])
    while True:
        m = {ix: bound(h, 0)}
        for j, p in enumerate(phis):
            m[p] = bound(h, j + 1)
        nb = [subst(b, m) for b in bodies]
        h2 = 1 + max([b.h for b in nb] or [0])
        if h2 == h:
            break
        h = h2
    return _xintern(name, count, inits, nb)

def open_x(t):
    """-> count, ix, phis, bodies with fresh symbols"""
    name, count, inits, bodies = t.args
    h = _level[t]
    ix = fresh('ix', 'int')
    phis = [fresh('phi') for _ in inits]
    m = {bound(h, 0): ix}
    for j, p in enumerate(phis):
        m[bound(h, j + 1)] = p
    return count, ix, phis, [subst(b, m) for b in bodies]

XSMART = {}
def _lift_out(body, ix, k):
    """Shannon-expand decisions of body that do not depend on ix; k(cofactored body) builds the rest"""
    v = _free_var(body, ix)
    if v is None:
        return k(body)
    vt, base = v
    labs = _labels(body, vt, base)
    return _shannon(vt, base, labs, [_lift_out(cofactor(body, vt, base, lab), ix, k) for lab in labs])

def _shannon(vt, base, labs, vals):
    """combine values whose own gates may precede (vt, base) in the order"""
    r = vals[-1]
    if vt in ('B', 'T'):
        return ite(_mk(vt, base, ((True, TRUE), (False, FALSE))), vals[0], vals[1])
    for lab, v in reversed(list(zip(labs[:-1], vals[:-1]))):
        c = _mk(vt, base, ((lab, TRUE), (None, FALSE)))
        r = ite(c, v, r)
    return r

def _labels(t, vt, base):
    found = []
    seen = set()
    def rec(t):
        if t.op != 'n' or t in seen:
            return
        seen.add(t)
        if t.args[0] == vt and t.args[1] is base:
            found.append(t)
        for _, c in t.args[2]:
            rec(c)
    rec(t)
    return _partition(vt, found)

def _free_var(t, ix):
    seen = set()
    def rec(t):
        if t.op != 'n' or t in seen:
            return None
        seen.add(t)
        if not (t.args[1].fv & ix):
            return t.args[0], t.args[1]
        for _, c in t.args[2]:
            r = rec(c)
            if r:
                return r
        return None
    return rec(t)

@(lambda f: XSMART.__setitem__('exists', f))
def _x_exists(count, ix, phis, inits, bodies):
    s = frozenset([ix])
    def k(b):
        if b is FALSE:
            return FALSE
        if b is TRUE:
            return lt(ZERO, count)
        if b is BOT:
            return BOT
        n = kint(count)
        if n is not None and n <= 8:
            return b_or(*[subst(b, {ix: K(i)}) for i in range(n)])
        def whole(c):
            if c.op == 'a' and c.args[0] == 'len' and coeffs_of(c.args[1]) is not None:
                s = coeffs_of(c.args[1])
                if b is b_not(eq(app('at', c.args[1], ix), ZERO)) or b is b_not(eq(app('at', s, ix), ZERO)):
                    return b_not(batom(rawapp('pzero', s.args[1])))
            return batom(raw_x('exists', c, ix, [], [], [b]))
        return lift(whole, count)
    return _lift_out(bodies[0], s, k)

SUM_HOOK = [None]
@(lambda f: XSMART.__setitem__('sum', f))
def _x_sum(count, ix, phis, inits, bodies):
    s = frozenset([ix])
    def k(b):
        n = kint(count)
        if n is not None and n <= 8:
            r = ZERO
            for i in range(n):
                r = add(r, subst(b, {ix: K(i)}))
            return r
        if b.op == 'n':
            # keep a gated summand whole, except for a common constant offset
            return lift(lambda c: raw_x('sum', c, ix, [], [], [b]), count)
        r = ZERO
        for m, c in as_poly(b).items():
            out = [(a, e) for a, e in m if not (a.fv & s)]
            inn = [(a, e) for a, e in m if a.fv & s]
            f = from_poly({tuple(out): c})
            if not inn:
                r = add(r, mul(f, count))
            else:
                g = from_poly({tuple(inn): Fraction(1)})
                z = rawapp('pow', ZERO, ix)
                if (z, 1) in inn:
                    # sum_i 0^i f(i) = f(0)
                    rest = from_poly({tuple((a, e) for a, e in inn if a is not z): Fraction(1)})
                    r = add(r, mul(f, ite(lt(ZERO, count), subst(rest, {ix: ZERO}), ZERO)))
                    continue
                if SUM_HOOK[0] is not None:
                    h = SUM_HOOK[0](count, ix, g)
                    if h is not None:
                        r = add(r, mul(f, h))
                        continue
                r = add(r, mul(f, lift(lambda cc: raw_x('sum', cc, ix, [], [], [g]), count)))
        return r
    return _lift_out(bodies[0], s, k)

@(lambda f: XSMART.__setitem__('prod', f))
def _x_prod(count, ix, phis, inits, bodies):
    n = kint(count)
    if n is not None and n <= 8:
        r = ONE
        for i in range(n):
            r = mul(r, subst(bodies[0], {ix: K(i)}))
        return r
    return None

@(lambda f: XSMART.__setitem__('flat', f))
def _x_flat(count, ix, phis, inits, bodies):
    """value: a *sequence* (type list) holding the block"""
    s = frozenset([ix])
    def k(b):
        if b is BOT:
            return BOT
        if b.op == 'q' and not b.args[1]:
            return mk_seq('list', [])
        n = kint(count)
        if n is not None and n <= 8:
            return seq_concat('list', *[subst(b, {ix: K(i)}) for i in range(n)])
        def kk(c):
            # eta: [S[i] for i < len(S)] = S
            if b.op == 'q' and len(b.args[1]) == 1 and b.args[1][0].op == 'u':
                e = b.args[1][0].args[0]
                src = _eta(e, ix)
                if src is not None and not (src.fv & s) and app('len', src) is c:
                    return mk_seq('list', [splice(src)])
            return mk_seq('list', [raw_x('flat', c, ix, [], [], [b])])
        return lift(kk, count)
    return _lift_out(seq_retype(bodies[0], 'list'), s, k)

def _eta(e, ix):
    if e.op == 'a' and e.args[0] == 'at' and e.args[2] is ix:
        return e.args[1]
    if e.op == 'q' and e.args[0] == 'tuple' and e.args[1] and all(p.op == 'u' for p in e.args[1]):
        src = None
        for j, p in enumerate(e.args[1]):
            x = p.args[0]
            if not (x.op == 'a' and x.args[0] == 'at' and kint(x.args[2]) == j):
                return None
            y = x.args[1]
            if not (y.op == 'a' and y.args[0] == 'at' and y.args[2] is ix):
                return None
            if src is None:
                src = y.args[1]
            elif src is not y.args[1]:
                return None
        sh = shape_of(src)
        if isinstance(sh, tuple) and sh[0] in ('list', 'iter') and isinstance(sh[1], tuple) and sh[1][0] == 'tuple' \
                and len(sh[1][1]) == len(e.args[1]):
            return src
    return None

# ---------------------------------------------------------------- strings
def strcat(*parts):
    return lift(_strcat, *parts)
def _strcat(*parts):
    out = []
    for p in parts:
        if p is BOT:
            return BOT
        ps = p.args if p.op == 'st' else (p,)
        for q in ps:
            if isk(q, 'str'):
                if kval(q) == '':
                    continue
                if out and isk(out[-1], 'str'):
                    out[-1] = K(kval(out[-1]) + kval(q))
                    continue
            out.append(q)
    if not out:
        return K('')
    if len(out) == 1:
        return out[0]
    return _intern('st', tuple(out), tuple(out))

def fmt(x, spec=''):
    """format(x, spec) as a string part"""
    return lift(lambda y: _fmt(y, spec), x)
def _fmt(x, spec):
    if spec in ('', 's'):
        if kind(x) == 'str':
            return x
        if isk(x, 'num'):
            v = kval(x)
            return K(str(int(v))) if v.denominator == 1 else rawapp('fmt', x, K(''))
        if isk(x, 'bool') or isk(x, 'none'):
            return K(str(kval(x)))
        return rawapp('fmt', x, K(''))
    if spec in ('d', 'i'):
        if isk(x, 'num') and kval(x).denominator == 1:
            return K(str(int(kval(x))))
        return _fmt(x, '') if kind(x) == 'int' else rawapp('fmt', x, K('d'))
    n = kint(x)
    if n is not None and spec != '!r':
        try:
            return K(format(n, spec))
        except ValueError:
            pass
    if spec.endswith('d') and spec != 'd' and kind(x) == 'int':
        spec = spec[:-1]
    return rawapp('fmt', x, K(spec))

# ---------------------------------------------------------------- maps (dictionaries)
def mk_map(base, items):
    """items: dict const-key term -> value"""
    keys = sorted(items, key=lambda k: repr(k.args))
    vals = [items[k] for k in keys]
    n = 1
    for v in vals:
        if v.op == 'n':
            n *= len(leaves(v))
    b = base if base is not None else NONE
    if (b.op == 'n' or n > 1) and n <= 256:
        def f(bb, *vs):
            if bb is BOT:
                return BOT
            if bb.op == 'map':
                it = dict(bb.args[1])
                it.update(zip(keys, vs))
                return mk_map(bb.args[0], it)
            return _map(None if bb is NONE else bb, tuple(zip(keys, vs)))
        return lift(f, b, *vals)
    if base is not None and base.op == 'map':
        it = dict(base.args[1])
        it.update(items)
        return mk_map(base.args[0], it)
    return _map(base, tuple(zip(keys, vals)))

def _map(base, items):
    kids = [v for _, v in items] + [k for k, _ in items] + ([base] if base is not None else [])
    return _intern('map', (base, items), kids)

# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    keys = frozenset(m)
    return _subst(t, m, keys, memo)

def op0(t):
    return t.op in ('k', 'bot', 'undef', 'cls', 'fn', 'mod', 'bi')
def _subst(t, m, keys, memo):
    if keys is not None and not (t.fv & keys):
        return t
    if keys is None:
        if t in m:
            return m[t]
        if op0(t):
            return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    S = lambda x: _subst(x, m, keys, memo)
    if op in ('s', 'b', 'ref'):
        r = m.get(t, t)
    elif op == 'p':
        r = ZERO
        for mono, c in t.args:
            x = K(c)
            for a, e in mono:
                x = mul(x, power(S(a), e))
            r = add(r, x)
    elif op == 'a':
        args = [S(a) for a in t.args[1:]]
        n = t.args[0]
        if n == 'inv':
            r = inv(args[0])
        elif n == 'pow':
            r = power(*args)
        elif n == 'eq':
            r = eq(*args)
        elif n == 'fmt':
            r = fmt(args[0], kval(args[1]))
        elif n in ('lt', 'le'):
            r = (lt if n == 'lt' else le)(*args)
        else:
            r = app(n, *args)
    elif op == 'u':
        r = unit(S(t.args[0]))
    elif op == 'sp':
        r = splice(S(t.args[0]))
    elif op == 'q':
        ps = []
        for p in t.args[1]:
            if p.op == 'x':
                x = S(p)
                ps.append(splice(x) if x.op != 'x' else x)
            else:
                ps.append(S(p))
        r = mk_seq(t.args[0], ps)
    elif op == 'n':
        vt, base, br = t.args
        nb = S(base)
        ch = [(l, S(c)) for l, c in br]
        if vt == 'B':
            c = nb if nb.op in ('n',) or nb in (TRUE, FALSE, BOT) else (truth(nb) if kind(nb) != 'bool' else batom(nb))
            r = ite(c, ch[0][1], ch[1][1])
        elif vt == 'T':
            r = ite(truth(nb), ch[0][1], ch[1][1])
        elif vt == 'V':
            r = ch[-1][1]
            for l, c in reversed(ch[:-1]):
                r = ite(eq(nb, l), c, r)
        else:
            r = ch[-1][1]
            for (k, incl), c in reversed(ch[:-1]):
                r = ite((le if incl else lt)(nb, K(k)), c, r)
    elif op == 'x':
        name, count, inits, bodies = t.args
        cnt, ix, phis, bd = open_x(t)
        r = mk_x(name, S(count), ix, phis, [S(i) for i in inits], [_subst(b, m, keys, {}) for b in bd])
        # a block lives inside a sequence: flat returns a sequence value
    elif op == 'st':
        r = strcat(*[S(a) for a in t.args])
    elif op == 'map':
        base, items = t.args
        r = mk_map(S(base) if base is not None else None, {S(k): S(v) for k, v in items})
    elif op == 'set':
        r = mk_set(S(t.args[0]))
    elif op in REBUILD:
        r = REBUILD[op](t, S)
    else:
        raise Unsupported('substitution in %s' % op)
    memo[t] = r
    return r
REBUILD = {}

def mk_set(seq):
    def f(s):
        if s is BOT:
            return BOT
        if s.op == 'q' and all(p.op == 'u' and not p.args[0].fv for p in s.args[1]):
            us = sorted(set(s.args[1]), key=lambda t: t.id)
            s = mk_seq('list', us)
        elif s.op == 'q':
            s = mk_seq('list', s.args[1])
        if s.op == 'q' and len(s.args[1]) == 1 and s.args[1][0].op == 'sp' and kind(s.args[1][0].args[0]) == 'set':
            return s.args[1][0].args[0]
        return _intern('set', (s,), (s,))
    return lift(f, seq)

# ---------------------------------------------------------------- printing
def show(t, depth=7):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return '...'
    d = depth - 1
    op, a = t.op, t.args
    if op == 'k':
        if a[0] == 'num':
            return str(a[1])
        if a[0] == 'str' and len(a[1]) > 60:
            return repr(a[1][:57]) + '...'
        return repr(a[1])
    if op == 's':
        return a[0]
    if op == 'b':
        return 'i%d' % a[0] if a[1] == 0 else 'phi%d_%d' % a
    if op == 'p':
        parts = []
        for m, c in a:
            fs = [show(x, d) + ('' if e == 1 else '^%d' % e) for x, e in m]
            if c != 1 or not fs:
                fs = [str(c)] + fs
            parts.append('*'.join(fs))
        return '(' + ' + '.join(parts) + ')'
    if op == 'a':
        if a[0] == 'at':
            return '%s[%s]' % (show(a[1], d), show(a[2], d))
        return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1:]))
    if op == 'n':
        vt, base, br = a
        b = show(base, d)
        def lab(l):
            if vt == 'B':
                return b if l else 'not ' + b
            if vt == 'T':
                return ('true(%s)' if l else 'false(%s)') % b
            if l is None:
                return 'else'
            if vt == 'V':
                return '%s==%s' % (b, show(l))
            return '%s%s%s' % (b, '<=' if l[1] else '<', l[0])
        if t.args[2][0][1] is TRUE and len(br) == 2 and br[1][1] is FALSE:
            return lab(br[0][0])
        return '{' + '; '.join('%s: %s' % (lab(l), show(c, d)) for l, c in br) + '}'
    if op == 'q':
        o, c = {'tuple': '()', 'set': '{}'}.get(a[0], '[]')
        return o + ', '.join(show(p, d) for p in a[1]) + c
    if op == 'u':
        return show(a[0], d)
    if op == 'sp':
        return '*' + show(a[0], d)
    if op == 'x':
        name, count, inits, bodies = a
        s = '%s(i%d<%s: %s' % (name, _level[t], show(count, d), ' ; '.join(show(b, d) for b in bodies))
        if inits:
            s += ' from ' + ', '.join(show(i, d) for i in inits)
        return s + ')'
    if op == 'st':
        return '"' + ''.join(kval(p) if isk(p, 'str') else '{' + show(p, d) + '}' for p in a) + '"'
    if op == 'map':
        return '{' + (('**' + show(a[0], d) + ', ') if a[0] is not None else '') + \
            ', '.join('%s: %s' % (show(k), show(v, d)) for k, v in a[1]) + '}'
    if op in ('bot', 'undef'):
        return op.upper()
    return '<%s %s>' % (op, ' '.join(show(x, d) if isinstance(x, T) else str(x)[:60] for x in a))
