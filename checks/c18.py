"""C18: two clicks are declared equivalent exactly when they state the same identity up to sign, scaling and an integer."""
from engine.terms import *
from engine import polymodel

MIN = 8

ULCD = '''
        from lhs_evaluators import ULCDEvaluator, RationalFuncEvaluator
        from verif_out import out
        def neg(p):
            return tuple([tuple([-c for c in q]) for q in p])
        def code(ab1, ab2, P, Q, f1, f2, c1, c2, T):
            x, y = ULCDEvaluator(P, T), ULCDEvaluator(Q, T)
            out('equivalent', ULCDEvaluator.is_equiv((ab1, x, f1, c1), (ab2, y, f2, c2)))
            out('values', (x.get_val(), y.get_val(), x.get_params(), y.get_params()))
        def spec(ab1, ab2, P, Q, f1, f2, c1, c2, T):
            out('equivalent', same(ab1, ab2, P, Q, f1, f2))
            out('values', (ulcd(P, T), ulcd(Q, T), P, Q))
        def ulcd(P, T):
            return (P[0] / T + T / P[1] + P[2]) / P[3]
        def same(ab1, ab2, P, Q, f1, f2):
            if f1 != 0 or f2 != 0:
                return f1 == f2 and ab1 == ab2 and P == Q
            if ab1[1] != ab2[1]:
                return False
            if ab1[0] != ab2[0] and ab1[0] != neg(ab2[0]):
                return False
            # (u, l, c, d) and (ru, l/r, rc, rd), r > 0, up to the signs of (u, l, c) and of d
            r1, r2 = abs(Q[3]), abs(P[3])
            return (P[0] * r1 == Q[0] * r2 and P[1] * r2 == Q[1] * r1 and P[2] * r1 == Q[2] * r2) or (
                P[0] * r1 == -Q[0] * r2 and P[1] * r2 == -Q[1] * r1 and P[2] * r1 == -Q[2] * r2)
'''
RAT = '''
        from lhs_evaluators import RationalFuncEvaluator, ULCDEvaluator
        from postprocfuncs import EVALUATED_POSTPROC_FUNCS
        import sympy
        from verif_out import out
        def neg(p):
            return tuple([tuple([-c for c in q]) for q in p])
        def poly(p):
            return sympy.poly('+'.join(['%%d*x**%%d' %% (c, i) for i, c in enumerate(p)]), sympy.symbols('x'), domain='ZZ')
        def code(ab1, ab2, P, Q, f1, f2, m1, m2, T):
            x, y = RationalFuncEvaluator(P + (m1,), T), RationalFuncEvaluator(Q + (m2,), T)
            %(before)s
            out('equivalent', RationalFuncEvaluator.is_equiv((ab1, x, f1, None), (ab2, y, f2, None)))
        def parts(P, m, T):
            o = RationalFuncEvaluator(P + (m,), T)
            o.canonalize_params()
            p, q, i = o.get_params()
            return poly(p), poly(q)
        def quotient(p, q):
            k, r = p.div(q, auto=False)
            return k - k(0), r
        def spec(ab1, ab2, P, Q, f1, f2, m1, m2, T):
            inverse = (f1, f2) in [(2 * k, 2 * k + 1) for k in range(12)] or (f2, f1) in [(2 * k, 2 * k + 1) for k in range(12)]
            if f1 != f2 and not inverse:
                out('equivalent', False)
                return
            if ab1[1] != ab2[1] or ab1[0] != ab2[0] and ab1[0] != neg(ab2[0]):
                out('equivalent', False)
                return
            p1, q1 = parts(P, m1, T)
            p2, q2 = parts(Q, m2, T)
            if inverse:
                p2, q2 = q2, p2
            k1, r1 = quotient(p1, q1)
            k2, r2 = quotient(p2, q2)
            out('equivalent', k1 == k2 and r1 * q2 == r2 * q1)
'''
MIXED = '''
        from lhs_evaluators import RationalFuncEvaluator, ULCDEvaluator, LHSEvaluator
        from verif_out import out
        class Plain(LHSEvaluator):
            def reinit_params(self, params):
                self.params = params
                self.val = params[0]
        def code(ab1, ab2, P, Q, f1, f2, T):
            r, u, p = RationalFuncEvaluator(P + (0,), T), ULCDEvaluator(Q, T), Plain((T,), T)
            out('rational, other', (RationalFuncEvaluator.is_equiv((ab1, r, f1, None), (ab2, u, f2, None)), RationalFuncEvaluator.is_equiv((ab1, p, f1, None), (ab2, r, f2, None))))
            out('ulcd, other', ULCDEvaluator.is_equiv((ab1, u, f1, None), (ab2, r, f2, None)))
        def spec(ab1, ab2, P, Q, f1, f2, T):
            out('rational, other', (False, False))
            out('ulcd, other', False)
'''

def lst(k, *xs):
    return mk_seq(k, [unit(x) for x in xs])

def run(ck):
    def polys(n, ls):
        return lst('tuple', *[lst('tuple', *[sym('%s%d%d' % (n, i, j), 'int') for j in range(l)]) for i, l in enumerate(ls)])
    T = sym('T', 'num')
    f1, f2 = sym('f1', 'int'), sym('f2', 'int')
    shapes = [((2,), (3,), (2,), (3,)), ((1,), (1,), (1,), (1,)), ((1, 1), (1,), (1, 1), (1,)), ((2,), (1,), (1, 1), (1,)), ((1,), (1,), (1,), (1, 1)),
              ((2,), (1,), (3,), (1,)), ((1,), (1,), (1,), (2,))]
    for sh in shapes:
        ab1 = lst('tuple', polys('a', sh[0]), polys('b', sh[1]))
        ab2 = lst('tuple', polys('A', sh[2]), polys('B', sh[3]))
        tag = '%s ~ %s' % sh[:2] + ' / %s ~ %s' % sh[2:]
        P = [sym(n, 'int') for n in ('u', 'l', 'c', 'd')]
        Q = [sym(n, 'int') for n in ('U', 'L', 'C', 'D')]
        given = b_and(b_not(eq(P[3], ZERO)), b_not(eq(Q[3], ZERO)))
        ck.same('ulcd/' + tag, ck.interp(), ULCD, [ab1, ab2, lst('tuple', *P), lst('tuple', *Q), f1, f2, sym('i1', '?'), sym('i2', '?'), T],
                given=given, rule='same fraction up to the sign of a; same parameters up to positive scaling and signs')
        given = b_and(le(ZERO, f1), le(ZERO, f2), lt(f1, K(24)), lt(f2, K(24)))
        for before in ('pass',):
            it = ck.interp()
            it.stubs['mpmath.isnormal'] = lambda it, a, kw: TRUE
            polymodel.install(it, T)
            it.stubs['call:num'] = lambda it, f, a, k: app('pfree', f)
            ck.same('rational/' + tag + ('' if before == 'pass' else ' after queries'), it, RAT % {'before': before},
                    [ab1, ab2, lst('tuple', sym('p1', ('list', 'int')), sym('q1', ('list', 'int'))),
                     lst('tuple', sym('p2', ('list', 'int')), sym('q2', ('list', 'int'))), f1, f2, sym('m1', 'int'), sym('m2', 'int'), T],
                    given=given, rule='same fraction up to the sign of a; same quotient (inverted for an inverse function) up to a constant')
    it = ck.interp()
    it.stubs['mpmath.isnormal'] = lambda it, a, kw: TRUE
    polymodel.install(it, T)
    it.stubs['call:num'] = lambda it, f, a, k: app('pfree', f)
    ck.same('different kinds', it, MIXED, [ab1, ab1, lst('tuple', sym('p1', ('list', 'int')), sym('q1', ('list', 'int'))), lst('tuple', *Q), f1, f2, T],
            given=b_and(le(ZERO, f1), le(ZERO, f2), lt(f1, K(24)), lt(f2, K(24))), rule='left-hand sides of different kinds are never equivalent')
