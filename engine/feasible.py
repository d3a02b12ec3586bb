"""Feasible-difference search: a polyhedral path-condition domain over the decision diagrams.

Two normal forms that are not the same object may still agree: the paths on which they differ can be contradictory, because the
diagrams keep one variable per linear expression and do not relate different expressions.  The walk descends both diagrams together,
collects the conditions of the path as linear constraints over monomials (equalities are propagated by substitution), drops contradictory
paths by Fourier-style elimination (an exact rational simplex) and reports a difference only on a path that is not refuted."""
import math, time
from fractions import Fraction
from . import terms as tm
from .terms import *
from .terms import _partition, _pick, _ktruth, _subst

class Budget(Exception):
    pass

LIMIT = 40.0

class Ctx:
    """cons: ((poly dict items), strict) meaning poly < 0 / <= 0;  sub: substitutions in order"""
    __slots__ = ('cons', 'sub', 'path')
    def __init__(self, cons=(), sub=(), path=()):
        self.cons, self.sub, self.path = cons, sub, path

def apply(t, sub):
    for a, v in sub:
        if a.id <= t.id or a is t:
            t = _subst(t, {a: v}, None, {})
    return t

def linear_atom(p):
    """(atom, value) solving p = 0 for an atom occurring linearly and nowhere else, newest atom first"""
    best = None
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.op == 'k' or kind(a) == 'int' and abs(c) != 1:
                continue
            rest = {k: v for k, v in p.items() if k is not m and k != m}
            if any(x is a or occurs(a, x) for mm in rest for x, e in mm):
                continue
            if best is None or (a.op == 'a', a.id) > (best[0].op == 'a', best[0].id):
                best = (a, mul(K(-1 / c), from_poly(rest)))
    return best

def occurs(a, t, seen=None):
    from .framework import kids
    work, seen = [t], set()
    while work:
        x = work.pop()
        if x is a:
            return True
        if x in seen or x.id < a.id:
            continue
        seen.add(x)
        work += kids(x)
    return False

class Search:
    def __init__(self, known=frozenset(), limit=LIMIT):
        self.known, self.dirty = known, set()      # uninterpreted operations of the definition; others met on a difference
        self.t0 = time.time()
        self.limit = limit
        self.cache = {}
        self.refuted = 0
        self.seen = set()

    def tick(self):
        if time.time() - self.t0 > self.limit:
            raise Budget()

    def differ(self, a, b, given=TRUE):
        """a path (list of conditions) and the two values on it, or None when a and b agree"""
        return self.rec(a, b, given, Ctx())

    def rec(self, a, b, g, ctx):
        if a is b or g is FALSE:
            return None
        key = (a, b, g, ctx.cons, ctx.sub)
        if key in self.seen:
            return None
        self.tick()
        t = top((a, b, g))
        if t is None:
            r = self.leaf(a, b, ctx)
            if r is None:
                self.seen.add(key)
            return r
        _, vt, base = t
        same = [x for x in (a, b, g) if x.op == 'n' and x.args[0] == vt and x.args[1] is base]
        labs = _partition(vt, same)
        for i, lab in enumerate(labs):
            def go(x):
                if x.op == 'n' and x.args[0] == vt and x.args[1] is base:
                    return _pick(x, vt, base, lab)
                if vt == 'V' and lab is not None and x.op == 'n':
                    return cofactor(x, 'T', base, _ktruth(lab))
                return x
            x, y, z = go(a), go(b), go(g)
            if x is y or z is FALSE:
                continue
            c = self.extend(ctx, vt, base, lab, labs[i - 1] if i else None)
            if c is None:
                self.refuted += 1
                continue
            # a substitution may rewrite what remains
            if c.sub != ctx.sub:
                new = c.sub[len(ctx.sub):]
                try:
                    x, y, z = apply(x, new), apply(y, new), apply(z, new)
                except Unsupported:
                    c = Ctx(c.cons, ctx.sub, c.path)
            r = self.rec(x, y, z, c)
            if r is not None:
                return r
        self.seen.add(key)
        return None

    def leaf(self, a, b, ctx):
        try:
            a, b = apply(a, ctx.sub), apply(b, ctx.sub)
        except Unsupported:
            pass
        if a is b:
            return None
        if a.op == 'n' or b.op == 'n':
            return self.rec(a, b, TRUE, ctx)
        ps = pairs(a, b)
        if ps is not None:
            for x, y in ps:
                if x is not y:
                    r = self.rec(x, y, TRUE, ctx)
                    if r is not None:
                        return r
            return None
        if is_plain_num(a) and is_plain_num(b):
            # equal numbers under the constraints?
            q = sub(a, b)
            if q.op == 'n':
                return self.rec(q, ZERO, TRUE, ctx)
            if q.op != 'k' and ctx.cons:
                p = as_poly(q)
                if not self.feasible(ctx.cons + ((frozenset(p.items()), True),)) and not self.feasible(
                        ctx.cons + ((frozenset((m, -c) for m, c in p.items()), True),)):
                    return None
        from .framework import markers, structural
        extra = markers(a) | {m for m in markers(b) if structural(m)}
        for vt, base, lab, prev in ctx.path:
            extra |= markers(base)
        extra -= self.known
        if extra:
            self.dirty |= extra
            return None
        return ctx.path, a, b

    def extend(self, ctx, vt, base, lab, prev):
        path = ctx.path + ((vt, base, lab, prev),)
        if vt == 'L':
            b = base
            p = as_poly(b)
            lo, hi = prev, lab
            ks = kind(b) == 'int'
            cons = list(ctx.cons)
            if lo is not None and hi is not None:
                l = lo[0] + 1 if ks and lo[1] else lo[0]
                h = hi[0] - 1 if ks and not hi[1] else hi[0]
                exact = l == h and (ks or not lo[1] and hi[1])
                if exact:
                    q = dict(p)
                    q[()] = q.get((), 0) - l
                    return self.equality(ctx, q, path)
            if hi is not None:
                q = dict(p)
                k, inc = hi
                if ks and not inc:
                    k, inc = k - 1, 1
                q[()] = q.get((), 0) - k
                cons.append((frozenset((m, c) for m, c in q.items() if c), not inc))
            if lo is not None:
                k, inc = lo          # prev region was base <= k (inc) or base < k: here base > k or base >= k
                if ks and inc:
                    k, inc = k + 1, 0
                q = {m: -c for m, c in p.items()}
                q[()] = q.get((), 0) + k
                cons.append((frozenset((m, c) for m, c in q.items() if c), bool(inc)))
            cons = tuple(dict.fromkeys(cons))
            if not self.feasible(cons):
                return None
            return Ctx(cons, ctx.sub, path)
        if vt == 'B' and lab is True and base.op == 'a' and base.args[0] == 'eq':
            x, y = base.args[1:]
            if x.op == 's' or y.op == 's':
                if x.op != 's' or y.op == 's' and y.id > x.id:
                    x, y = y, x
                if not occurs(x, y):
                    return self.told(Ctx(ctx.cons, ctx.sub + ((x, y),), path))
            elif x.op == 'a' or y.op == 'a':
                if x.op != 'a' or y.op == 'a' and y.id > x.id:
                    x, y = y, x
                if y.op != 'n' and not occurs(x, y):
                    return self.told(Ctx(ctx.cons, ctx.sub + ((x, y),), path))
        if vt == 'V' and lab is not None and base.op == 's':
            return self.told(Ctx(ctx.cons, ctx.sub + ((base, lab),), path))
        return self.told(Ctx(ctx.cons, ctx.sub, path)) if vt == 'B' and base.op == 'a' and base.args[0] == 'eq' else Ctx(ctx.cons, ctx.sub, path)

    def told(self, ctx):
        """ctx, or None when its equalities (closed under transitivity) contradict its disequalities"""
        same, apart = {}, []
        def find(x):
            while x in same:
                x = same[x]
            return x
        for vt, base, lab, prev in ctx.path:
            if vt == 'B' and base.op == 'a' and base.args[0] == 'eq':
                x, y = base.args[1:]
                if lab is True:
                    x, y = find(x), find(y)
                    if x is not y:
                        if x.op == 'k':
                            x, y = y, x
                        if x.op == 'k':
                            if eq(x, y) is FALSE:
                                return None
                        same[x] = y
                elif lab is False:
                    apart.append((x, y))
            elif vt == 'V' and lab is not None and isinstance(lab, tm.T):
                x, y = find(base), find(lab)
                if x is not y:
                    if x.op == 'k':
                        x, y = y, x
                    if x.op == 'k' and eq(x, y) is FALSE:
                        return None
                    same[x] = y
        for x, y in apart:
            if find(x) is find(y):
                return None
        return ctx

    def equality(self, ctx, q, path):
        q = {m: c for m, c in q.items() if c}
        la = linear_atom(q)
        fs = frozenset(q.items())
        ns = frozenset((m, -c) for m, c in q.items())
        if la is None or la[1].op == 'n':
            cons = tuple(dict.fromkeys(ctx.cons + ((fs, False), (ns, False))))
            return Ctx(cons, ctx.sub, path) if self.feasible(cons) else None
        old = ctx.cons
        for p, strict in atom_facts([la[0]]):
            old += ((frozenset(p.items()), strict),)       # what is known of the atom that is substituted away
        cons = []
        for f, strict in old:
            t = from_poly(dict(f))
            try:
                t2 = _subst(t, {la[0]: la[1]}, None, {})
            except Unsupported:
                continue
            if t2.op == 'n':
                cons.append((f, strict))
                continue
            p = as_poly(t2)
            cons.append((frozenset(p.items()), strict))
        cons = tuple(dict.fromkeys(cons))
        if not self.feasible(cons):
            return None
        return Ctx(cons, ctx.sub + (la,), path)

    # ---- linear arithmetic over monomials
    def feasible(self, cons):
        key = frozenset(cons)
        r = self.cache.get(key)
        if r is None:
            self.tick()
            r = self.cache[key] = self._feasible(list(key))
        return r

    def _feasible(self, cons):
        cons = [(dict(f), s) for f, s in cons]
        live = []
        for f, s in cons:
            f = {m: c for m, c in f.items() if c}
            if set(f) <= {()}:
                v = f.get((), 0)
                if v > 0 or v == 0 and s:
                    return False
                continue
            live.append((f, s))
        if not live:
            return True
        atoms = {a for f, s in live for m in f for a, e in m}
        facts = atom_facts(atoms)
        for _ in range(3):
            more = {a for f, s in facts for m in f for a, e in m} - atoms
            if not more:
                break
            atoms |= more
            facts += atom_facts(more)
        for m in {m for f, s in live for m in f}:
            if m and all(e % 2 == 0 for a, e in m):
                facts.append(({m: Fraction(-1)}, False))
        allc = live + facts
        if lp_infeasible(allc):
            return False
        # products of two constraints whose monomials are all known already (sign reasoning on products)
        monos = {m for f, s in allc for m in f}
        if any(sum(e for a, e in m) > 1 for m in monos):
            small_ = [c for c in allc if all(sum(e for a, e in m) <= 2 for m in c[0])][:30]
            prods = []
            for i, (f, s) in enumerate(small_):
                for h, t in small_[i:]:
                    d = {}
                    for m1, c1 in f.items():
                        for m2, c2 in h.items():
                            m = tm._mmul(m1, m2)
                            d[m] = d.get(m, 0) - c1 * c2
                    d = {m: c for m, c in d.items() if c}
                    if d and sum(1 for m in d if m not in monos) <= 1 and len(d) < 12:
                        prods.append((d, s and t))
            if prods and lp_infeasible(allc + prods[:120]):
                return False
        # min, max and abs are one of their arguments: infeasible when every choice is
        choices = []
        for a in sorted((a for a in atoms if a.op == 'a' and a.args[0] in ('min', 'max', 'abs')), key=lambda a: a.id):
            alts = []
            ys = a.args[1:] if a.args[0] != 'abs' else (a.args[1], neg(a.args[1]))
            if any(y.op in ('n', 'q', 'sp', 'u') for y in ys):
                continue
            for y in ys:
                q = {m: Fraction(c) for m, c in as_poly(y).items()}
                q[((a, 1),)] = q.get(((a, 1),), Fraction(0)) - 1
                alts.append([(q, False), ({m: -c for m, c in q.items()}, False)])
            choices.append(alts)
        def open_(cons, i):
            if i == len(choices):
                return True
            for alt in choices[i]:
                self.tick()
                more = cons + alt
                if not lp_infeasible(more) and open_(more, i + 1):
                    return True
            return False
        return open_(allc, 0)

def atom_facts(atoms):
    """linear facts that hold of an atom because of what it is"""
    facts = []
    for a in atoms:
        if a.op == 'a' and a.args[0] == 'abs':
            for sg in (1, -1):
                p = {m: sg * c for m, c in as_poly(a.args[1]).items()}
                p[((a, 1),)] = p.get(((a, 1),), 0) - 1
                facts.append((p, False))
        elif a.op == 'a' and a.args[0] in ('min', 'max'):
            for y in a.args[1:]:
                if y.op in ('n', 'q', 'sp', 'u'):
                    continue
                sg = 1 if a.args[0] == 'max' else -1
                p = {m: sg * c for m, c in as_poly(y).items()}
                p[((a, 1),)] = p.get(((a, 1),), 0) - sg
                facts.append((p, False))
        elif a.op == 'a' and a.args[0] in ('int', 'floor', 'ceil') and len(a.args) == 2 and is_plain_num(a.args[1]) and a.args[1].op != 'k':
            # distance to the rounded value; at most (d-1)/d when the value is a fraction with denominator d
            q = as_poly(a.args[1])
            d = None
            if all(x.op == 's' and kind(x) == 'int' or kind(x) == 'int' for m in q for x, e in m):
                d = 1
                for c in q.values():
                    d = d * Fraction(c).denominator // math.gcd(d, Fraction(c).denominator)
            for sg in (1, -1):
                p = {m: -sg * c for m, c in q.items()}
                p[((a, 1),)] = p.get(((a, 1),), 0) + sg       # sg * (rounded - value)
                if a.args[0] == ('floor' if sg == 1 else 'ceil'):
                    facts.append((p, False))
                else:
                    p[()] = p.get((), 0) - (Fraction(d - 1, d) if d else 1)
                    facts.append((p, d is None))
        if is_nonneg(a):
            low = 1 if a.op == 'a' and a.args[0] == 'len' and tm.coeffs_of(a.args[1]) is not None else 0    # at least the free coefficient
            facts.append(({((a, 1),): Fraction(-1), (): Fraction(low)}, False))
    return facts

def lp_infeasible(cons):
    """no real assignment of the monomials satisfies  f < 0 (strict) / f <= 0 : exact Fourier-Motzkin elimination while it stays small, then
    an exact simplex"""
    r = fm_infeasible(cons)
    return simplex_infeasible(cons) if r is None else r

def simplex_infeasible(cons):
    """the same question, by pivoting (Bland's rule; a strict bound is lowered by an infinitesimal)"""
    rows, ub = [], []
    vs = {}
    for f, s in {norm_row(f, s) for f, s in cons}:
        c = dict(f)
        k = c.pop((), Fraction(0))
        if not c:
            if k > 0 or k == 0 and s:
                return True
            continue
        for m in c:
            vs.setdefault(m, len(vs))
        rows.append(c)
        ub.append((-k, -1 if s else 0))
    nv = len(vs)
    # variables 0..nv-1 are free, nv+i is the slack of row i with an upper bound
    upper = {nv + i: u for i, u in enumerate(ub)}
    val = {j: (Fraction(0), Fraction(0)) for j in range(nv + len(rows))}
    tab = {nv + i: {vs[m]: c for m, c in r.items()} for i, r in enumerate(rows)}      # basic -> {nonbasic: coefficient}
    for _ in range(4000):
        bad = [b for b in tab if b in upper and val[b] > upper[b]]
        if not bad:
            return False
        b = min(bad)
        row = tab[b]
        # the value of b has to fall: a nonbasic one falls (coefficient > 0; always possible) or rises (coefficient < 0; below its bound)
        j = min((j for j, c in row.items() if c > 0 or j not in upper or val[j] < upper[j]), default=None)
        if j is None:
            return True
        c = row[j]
        step = tuple((u - v) / c for u, v in zip(upper[b], val[b]))
        if c < 0 and j in upper:
            room = tuple(u - v for u, v in zip(upper[j], val[j]))
            if room < step:
                # it only rises to its bound; b is not repaired yet
                for o, r in tab.items():
                    if j in r:
                        val[o] = tuple(v + r[j] * t for v, t in zip(val[o], room))
                val[j] = upper[j]
                continue
        # pivot b and j
        for o, r in tab.items():
            if o != b and j in r:
                val[o] = tuple(v + r[j] * t for v, t in zip(val[o], step))
        val[j] = tuple(v + t for v, t in zip(val[j], step))
        val[b] = upper[b]
        del tab[b]
        new = {k: -x / c for k, x in row.items() if k != j}
        new[b] = 1 / c
        for o, r in tab.items():
            x = r.pop(j, None)
            if x:
                for k, y in new.items():
                    z = r.get(k, 0) + x * y
                    if z:
                        r[k] = z
                    else:
                        r.pop(k, None)
        tab[j] = new
    return False

def fm_infeasible(cons):
    rows = set()
    for f, s in cons:
        rows.add(norm_row(f, s))
    for _ in range(400):
        nxt = set()
        for r in rows:
            f, s = r
            if not f or len(f) == 1 and f[0][0] == ():
                v = f[0][1] if f else 0
                if v > 0 or v == 0 and s:
                    return True
                continue
            nxt.add(r)
        rows = nxt
        if not rows:
            return False
        # variable with the fewest resulting rows
        pos, negs = {}, {}
        for f, s in rows:
            for m, c in f:
                if m != ():
                    (pos if c > 0 else negs).setdefault(m, []).append((f, s))
        best = min(set(pos) | set(negs), key=lambda m: (len(pos.get(m, ())) * len(negs.get(m, ())) - len(pos.get(m, ())) - len(negs.get(m, ())),
                                                       tuple((a.id, e) for a, e in m)))
        P, Nn = pos.get(best, []), negs.get(best, [])
        if len(P) * len(Nn) > 600:
            return None
        rows -= set(P) | set(Nn)
        for f, s in P:
            df = dict(f)
            for h, t in Nn:
                dh = dict(h)
                c1, c2 = df[best], -dh[best]
                d = {m: c * c2 for m, c in df.items()}
                for m, c in dh.items():
                    d[m] = d.get(m, 0) + c * c1
                d.pop(best, None)
                rows.add(norm_row(d, s or t))
        if len(rows) > 1500:
            return None
    return None

def mkey(m):
    return tuple((a.id, e) for a, e in m)

def norm_row(f, s):
    f = {m: Fraction(c) for m, c in f.items() if c}
    vs = [m for m in f if m != ()]
    if vs and all(kind(a) == 'int' for m in vs for a, e in m):
        # over the integers: coprime coefficients, and the bound rounded to the next integer
        d = math.lcm(*(f[m].denominator for m in vs))
        g = math.gcd(*(int(f[m] * d) for m in vs))
        k = f.get((), Fraction(0)) * d / g
        f = {m: f[m] * d / g for m in vs}
        k = Fraction(math.floor(k) + 1 if s else math.ceil(k))
        if k:
            f[()] = k
        s = False
    elif vs:
        k = abs(f[min(vs, key=mkey)])
        f = {m: c / k for m, c in f.items()}
    return (tuple(sorted(f.items(), key=lambda mc: mkey(mc[0]))), bool(s))

def pairs(a, b):
    """children to compare when both terms have the same head, None when the heads differ"""
    if a.op != b.op:
        return None
    op = a.op
    if op == 'q':
        if a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
            return list(zip(a.args[1], b.args[1]))
    elif op in ('u', 'sp', 'set'):
        return [(a.args[0], b.args[0])]
    elif op == 'x':
        if a.args[0] == b.args[0] and len(a.args[2]) == len(b.args[2]) and len(a.args[3]) == len(b.args[3]) and tm._level[a] == tm._level[b]:
            return list(zip((a.args[1],) + tuple(a.args[2]) + tuple(a.args[3]), (b.args[1],) + tuple(b.args[2]) + tuple(b.args[3])))
    elif op == 'st':
        if len(a.args) == len(b.args):
            return list(zip(a.args, b.args))
    elif op == 'map':
        if [k for k, _ in a.args[1]] == [k for k, _ in b.args[1]] and a.args[0] is b.args[0]:
            return [(x, y) for (_, x), (_, y) in zip(a.args[1], b.args[1])]
    elif op == 'inst':
        if a.args[:2] == b.args[:2]:
            return list(zip(a.args[2], b.args[2]))
    elif op == 'ctl' and a.args[0] == b.args[0] and a.args[1] is not None and b.args[1] is not None:
        return [(a.args[1], b.args[1])]
    elif op == 'a' and a.args[0] == b.args[0] and len(a.args) == len(b.args) and all(isinstance(x, tm.T) for x in a.args[1:] + b.args[1:]):
        return list(zip(a.args[1:], b.args[1:]))
    return None
