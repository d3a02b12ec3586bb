"""Value abstraction of sympy polynomials: a polynomial is represented by its value at one point (the target constant).
   Ring operations become the same operations on numbers; gcd / division become uninterpreted values tied together by their laws;
   the coefficient list of a polynomial of value v is coeffs(v), and sum_j coeffs(v)[j]*K^j = v."""
from . import terms as tm
from .terms import *
from .terms import _intern
from . import interp as ip, models as md

APP_SHAPE = tm.APP_SHAPE
APP_SHAPE['coeffs'] = ('list', 'int')
APP_SHAPE['qcoeffs'] = ('list', 'num')        # of a quotient over the rationals
tm.KIND_APP['pgcd'] = tm.KIND_APP['pquo'] = tm.KIND_APP['zquo'] = 'num'
POINT = [None]

def parse_poly(it, s):
    """value at the point of the polynomial printed as the string term s"""
    K0 = POINT[0]
    def mono(ps):
        # pieces of one monomial:  <coeff> "*x**" <exp>
        ps = list(ps)
        if len(ps) == 3 and isk(ps[1], 'str') and kval(ps[1]).replace(' ', '') in ('*x**', 'x**'):
            return mul(num(ps[0]), power(K0, num(ps[2])))
        if len(ps) == 2 and isk(ps[1], 'str') and kval(ps[1]).startswith('*x**'):
            e = kval(ps[1])[4:]
            return mul(num(ps[0]), power(K0, K(int(e)))) if e.lstrip('-').isdigit() else None
        return None
    def num(p):
        if p.op == 'a' and p.args[0] in ('fmt', 'str'):
            return p.args[1]
        if isk(p, 'str'):
            return K(int(kval(p)))
        return None
    if s.op == 'a' and s.args[0] == 'join' and isk(s.args[1], 'str') and kval(s.args[1]).strip() == '+':
        r = ZERO
        for p in s.args[2].args[1]:
            if p.op == 'u':
                v = mono(p.args[0].args) if p.args[0].op == 'st' else None
                if v is None:
                    return None
                r = add(r, v)
            elif p.op == 'x' and p.args[0] == 'flat':
                count, ix, phis, bodies = open_x(p)
                b = bodies[0]
                if b.op != 'q' or len(b.args[1]) != 1 or b.args[1][0].op != 'u' or b.args[1][0].args[0].op != 'st':
                    return None
                v = mono(b.args[1][0].args[0].args)
                if v is None:
                    return None
                r = add(r, mk_x('sum', count, ix, [], [], [v]))
            else:
                return None
        return r
    return None

def install(it, point):
    POINT[0] = point
    def poly(it, args, kwargs):
        x = it.freeze(args[0])
        def f(s):
            if kind(s) == 'str':
                v = parse_poly(it, s)
                if v is None:
                    raise Unsupported('polynomial text %s' % show(s, 5)[:200])
                return v
            if kind(s) == 'list' or s.op == 'q':
                # high to low
                n = app('len', s)
                ix = fresh('pi', 'int')
                return mk_x('sum', n, ix, [], [], [mul(app('at', s, ix), power(point, sub(sub(n, ONE), ix)))])
            return s
        return lift(f, x)
    for n in ('sympy.poly', 'sympy.Poly', 'sympy.polys.polytools.poly', 'sympy.polys.polytools.Poly', 'sympy.Poly.from_list'):
        it.stubs[n] = poly
    def coeffs(v):
        over_q = any(a.op == 'a' and a.args[0] == 'pquo' for m, c in as_poly(v).items() for a, e in m)
        return app('qcoeffs' if over_q else 'coeffs', v)
    def allcoeffs(it, x, args, kwargs):
        return it.new_list(md.seq_reverse(mk_seq('list', [splice(lift(coeffs, x))])))
    def gcd(it, x, args, kwargs):
        a, b = sorted([x, args[0]], key=lambda t: repr(t))
        return lift(lambda a, b: rawapp('pgcd', a, b), x, it.freeze(args[0]))
    def div_(it, x, args, kwargs):
        auto = args[1] if len(args) > 1 else kwargs.get('auto', TRUE)
        if auto is not TRUE and auto is not FALSE:
            raise Unsupported('division with auto = %s' % show(auto, 3)[:100])
        def f(a, g):
            if g.op == 'a' and g.args[0] == 'pgcd' and a in g.args[1:]:
                return tup(div(a, g), ZERO)
            q = rawapp('pquo' if auto is TRUE else 'zquo', a, g)
            return tup(q, sub(a, mul(q, g)))
        return lift(f, x, it.freeze(args[0]))
    def first(fn, i):
        return lambda it, x, args, kwargs: it.getitem(fn(it, x, args, kwargs), K(i))
    def exquo(it, x, args, kwargs):
        return first(div_, 0)(it, x, args, kwargs)
    it.meth_stubs.update({'all_coeffs': allcoeffs, 'gcd': gcd, 'div': div_, 'exquo': exquo, 'quo': first(div_, 0), 'rem': first(div_, 1),
                          'as_expr': lambda it, x, a, k: x, 'set_domain': lambda it, x, a, k: x, 'to_ring': lambda it, x, a, k: x})
    def sumhook(count, ix, body):
        """sum_j coeffs(v)[j] * point^j = v"""
        if body.op == 'p' and len(body.args) == 1 and body.args[0][1] == 1:
            at = [a for a, e in body.args[0][0] if a.op == 'a' and a.args[0] == 'at' and e == 1]
            for a in at:
                s, j = a.args[1], a.args[2]
                if s.op == 'a' and s.args[0] in ('coeffs', 'qcoeffs') and app('len', s) is count:
                    if j is ix and mul(a, power(point, ix)) is body:
                        return s.args[1]
                    n1 = sub(sub(count, ONE), ix)
                    if j is n1 and mul(a, power(point, n1)) is body:
                        return s.args[1]
        return None
    tm.SUM_HOOK[0] = sumhook
