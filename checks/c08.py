"""C08: continued fraction evaluation follows the defining recurrence."""
from engine.terms import *

MIN = 20
L = ('list', 'int')

CF = '''
        from cont_fracs import ContFrac, ZeroB, eval_contfrac, eval_contfrac_by_polys, eval_dec_contfrac_by_polys
        from mpmath import isnormal, mpf
        from verif_out import out
        def val(p, i):
            if i == 0:
                return p[0]
            r = 0
            for j in range(len(p)):
                r += p[j] * i ** j
            return r
        def pq(a, b, n):
            """latest convergent by the defining recurrence"""
            p, q, pp, qq = val(a[0], 0), 1, 1, 0
            for i in range(1, n + 1):
                x, y = val(a[i %% len(a)], i), val(b[i %% len(b)], i)
                p, pp = x * p + y * pp, p
                q, qq = x * q + y * qq, q
            return p, q
        def res(a, b, n):
            p, q = pq(a, b, n)
            if isnormal(q):
                return mpf(p) / q
            return mpf('nan')
'''
GEN = CF + '''
        def code(A, B, T):
            cf = ContFrac(A, B, avoid_zero_b=False, target_val=T%s)
            cf.gen_iterations(%d)
            out('convergent', cf.get_p_q())
            out('result', cf.get_result())
            out('executed', cf.get_num_of_executed_iters())
        def spec(A, B, T):
            out('convergent', pq(A, B, %d))
            out('result', res(A, B, %d))
            out('executed', %d)
'''
STEP = CF + '''
        def code(A, B, T, N):
            cf = ContFrac(A, B, avoid_zero_b=False, target_val=T%s)
            cf.gen_iterations(N)
            p0, q0 = cf.get_p_q()
            cf.add_iterations(1)
            p1, q1 = cf.get_p_q()
            cf.add_iterations(1)
            p2, q2 = cf.get_p_q()
            out('numerator', p2 - val(A[(N + 2) %% len(A)], N + 2) * p1 - val(B[(N + 2) %% len(B)], N + 2) * p0)
            out('denominator', q2 - val(A[(N + 2) %% len(A)], N + 2) * q1 - val(B[(N + 2) %% len(B)], N + 2) * q0)
            out('executed', cf.get_num_of_executed_iters())
            out('result', cf.get_result() == (mpf(p2) / q2 if isnormal(q2) else mpf('nan')))
        def spec(A, B, T, N):
            out('numerator', 0)
            out('denominator', 0)
            out('executed', N + 2)
            out('result', True)
'''
NEST = CF + '''
        def code(%(args)s):
            out('value', eval_contfrac([%(a)s], [%(b)s]))
        def spec(%(args)s):
            out('value', %(nested)s)
'''
ONES = CF + '''
        def code(%(args)s):
            out('value', eval_contfrac([%(a)s]))
        def spec(%(args)s):
            out('value', %(nested)s)
'''
POLY = CF + '''
        def nest(a, b, i, n):
            x = val(a[i %% len(a)], i)
            if i + 1 < n:
                return x + val(b[(i + 1) %% len(b)], i + 1) / nest(a, b, i + 1, n)
            return x
        def code(A, B, T):
            out('value', %s(A, B, %d))
        def spec(A, B, T):
            out('value', nest(A, B, 0, %d))
'''
FLAT = CF + '''
        def code(P, Q, T):
            cf = ContFrac(P, Q, avoid_zero_b=False, target_val=T)
            cf.gen_iterations(%d)
            out('convergent', cf.get_p_q())
            out('value', eval_contfrac_by_polys(P, Q, %d + 1))
        def spec(P, Q, T):
            cf = ContFrac([P], [Q], avoid_zero_b=False, target_val=T)
            cf.gen_iterations(%d)
            out('convergent', cf.get_p_q())
            out('value', eval_contfrac_by_polys([P], [Q], %d + 1))
'''
FN = '''
        from utils import MathOperations
        from verif_out import out
        def code(p, x):
            out('value', MathOperations.subs_in_polynom(p, x))
        def spec(p, x):
            r = 0
            for j in range(len(p)):
                r += p[j] * x ** j
            out('value', r)
'''

def seqs(n, name):
    return mk_seq('list', [unit(sym('%s%d' % (name, i), L)) for i in range(n)])

def nonempty(*qs):
    return b_and(*[lt(ZERO, app('len', u.args[0])) for q in qs for u in q.args[1]])

def run(ck):
    T = sym('T', 'num')
    maxn = 6 if ck.tier == 'quick' else 9
    for la, lb in ((1, 1), (2, 1), (1, 2), (2, 3), (3, 2)):
        A, B = seqs(la, 'a'), seqs(lb, 'b')
        for n in range(0, maxn):
            for log in ('', ', logging=True'):
                ck.same('convergents/%d interlaced a, %d interlaced b, %d iterations%s' % (la, lb, n, log), ck.interp(),
                        GEN % (log, n, n, n, n), [A, B, T], given=nonempty(A, B), rule='convergent = forward recurrence from (a_0, 1)/(1, 0)')
        if la * lb == 1:
            ck.same('inductive step', ck.interp(), STEP % '', [A, B, T, sym('N', 'int')],
                rule='P_{n+2} = a_{n+2} P_{n+1} + b_{n+2} P_n for symbolic n (same for Q)',
                given=b_and(nonempty(A, B), le(ZERO, sym('N', 'int'))))
        for n in range(1, 5):
            for f in ('eval_contfrac_by_polys', 'eval_dec_contfrac_by_polys'):
                ck.same('%s/%d interlaced a, %d interlaced b, depth %d' % (f, la, lb, n), ck.interp(), POLY % (f, n, n), [A, B, T],
                        given=nonempty(A, B), rule='value = nested fraction of the polynomial values')
    A, B = sym('A', ('list', L)), sym('B', ('list', L))
    j = sym('j', 'int')
    ck.same('inductive step, any number of interlaces', ck.interp(), STEP % '', [A, B, T, sym('N', 'int')],
            rule='P_{n+2} = a_{n+2} P_{n+1} + b_{n+2} P_n for symbolic n (same for Q)',
            given=b_and(lt(ZERO, app('len', A)), lt(ZERO, app('len', B)), lt(ZERO, app('len', app('at', A, ZERO))), le(ZERO, sym('N', 'int'))))
    for n in range(0, 5):
        a = ['a%d' % i for i in range(n + 1)]
        b = ['b%d' % i for i in range(n)]
        nested = a[-1]
        for x, y in zip(reversed(a[:-1]), reversed(b)):
            nested = '%s + %s / (%s)' % (x, y, nested)
        d = {'args': ', '.join(a + b), 'a': ', '.join(a), 'b': ', '.join(b), 'nested': nested}
        ck.same('eval_contfrac/depth %d' % n, ck.interp(), NEST % d, [sym(x, 'num') for x in a + b], rule='value = nested fraction')
        one = a[-1]
        for x in reversed(a[:-1]):
            one = '%s + 1 / (%s)' % (x, one)
        d = {'args': ', '.join(a), 'a': ', '.join(a), 'nested': one}
        ck.same('eval_contfrac/ones, depth %d' % n, ck.interp(), ONES % d, [sym(x, 'num') for x in a], rule='value = nested fraction')
    for n in range(1, 4):
        a = ['a%d' % i for i in range(n)]
        b = ['b%d' % i for i in range(n)]
        nested = a[-1]
        for x, y in zip(reversed(a[:-1]), reversed(b[1:])):
            nested = '%s + %s / (%s)' % (x, y, nested)
        d = {'args': ', '.join(a + b), 'a': ', '.join(a), 'b': ', '.join(b), 'nested': 'b0 / (%s)' % nested}
        ck.same('eval_contfrac/no additive constant, depth %d' % n, ck.interp(), NEST % d, [sym(x, 'num') for x in a + b],
                rule='value = nested fraction')
    for n in (0, 1, 3):
        ck.same('flat coefficient lists/%d' % n, ck.interp(), FLAT % (n, n, n, n), [sym('P', L), sym('Q', L), T], given=b_and(lt(ZERO, app('len', sym('P', L))), lt(ZERO, app('len', sym('Q', L)))))
    ck.same('polynomial substitution', ck.interp(), FN, [sym('p', ('list', 'num')), sym('x', 'num')])
