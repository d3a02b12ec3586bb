"""C09: extending, restarting, logging and reusing an evaluation give the convergents of a fresh evaluation."""
import itertools
from engine.terms import *
from checks.c08 import CF, L, seqs, nonempty

MIN = 30

TMPL = CF + '''
        def code(A, B, A2, B2, T, acc, base, coeff, N):
            cf = ContFrac(A, B, avoid_zero_b=False, target_val=T%(log)s)
            %(ops)s
            out('convergent', cf.get_p_q())
            out('result', %(res)s)
            out('executed', cf.get_num_of_executed_iters())
        def spec(A, B, A2, B2, T, acc, base, coeff, N):
            cf = ContFrac(%(a)s, %(b)s, avoid_zero_b=False, target_val=T)
            cf.gen_iterations(%(n)d)
            out('convergent', cf.get_p_q())
            out('result', %(res)s)
            out('executed', %(n)d)
'''
CAP = CF + '''
        from mpmath import log
        import math
        def code(A, B, A2, B2, T, acc, base, coeff, N):
            cf = ContFrac(A, B, avoid_zero_b=False, target_val=T)
            cf.set_approach_type_and_params((%(kind)r, (base, coeff)))
            %(pre)s
            cf.gen_iterations(%(n)s%(acc)s)
            out('executed', cf.get_num_of_executed_iters())
        def spec(A, B, A2, B2, T, acc, base, coeff, N):
            out('executed', %(spec)s)
'''
CMP = CF + '''
        def code(A, B, A2, B2, T, acc, base, coeff, N):
            cf = ContFrac(A, B, avoid_zero_b=False, target_val=T%(log)s)
            cf.gen_iterations(3)
            out('distance', cf.compare_result())
            out('signed', cf.compare_result(calc_abs=False))
            out('other target', cf.compare_result(target_val=acc))
            out('valid', bool(cf.is_result_valid()))
        def spec(A, B, A2, B2, T, acc, base, coeff, N):
            r = res(A, B, 3)
            out('distance', abs(r - T))
            out('signed', r - T)
            out('other target', abs(r - acc))
            out('valid', bool(isnormal(r)))
'''
STOP = CF + '''
        def code(A, B, A2, B2, T, acc, base, coeff, N):
            cf = ContFrac(A, B, target_val=T)
            stopped = False
            try:
                cf.gen_iterations(%(n)d)
            except ZeroB:
                stopped = True
            out('stopped', stopped)
            out('convergent', None if stopped else cf.get_p_q())
            out('result', None if stopped else cf.get_result())
            cf.reinitialize(A2, B2)
            stopped2 = False
            try:
                cf.gen_iterations(%(m)d)
            except ZeroB:
                stopped2 = True
            out('stopped after reuse', stopped2)
            out('convergent after reuse', None if stopped2 else cf.get_p_q())
        def zero(B, n):
            return any([val(B[i %% len(B)], i) == 0 for i in range(1, n + 1)])
        def spec(A, B, A2, B2, T, acc, base, coeff, N):
            s, s2 = zero(B, %(n)d), zero(B2, %(m)d)
            out('stopped', s)
            out('convergent', None if s else pq(A, B, %(n)d))
            out('result', None if s else res(A, B, %(n)d))
            out('stopped after reuse', s2)
            out('convergent after reuse', None if s2 else pq(A2, B2, %(m)d))
'''

def run(ck):
    N = sym('N', 'int')
    def args(la, lb):
        A, B, A2, B2 = seqs(la, 'a'), seqs(lb, 'b'), seqs(lb, 'c'), seqs(la, 'd')
        return [A, B, A2, B2, sym('T', 'num'), sym('acc', 'num'), sym('base', 'num'), sym('coeff', 'num'), N], nonempty(A, B, A2, B2)
    a, g = args(1, 2)
    for log in ('', ', logging=True'):
        for i, j, k in itertools.product((0, 1, 3), (0, 1, 2), (None, 0, 1, 2)):
            ops = ['cf.gen_iterations(%d%s)' % (i, ', exec_finalize=False' if (i + j) % 2 else ''), 'cf.add_iterations(%d)' % j]
            if k is not None:
                ops.append('cf.add_iterations(%d)' % k)
            # a last block without iterations is still finalized
            d = {'log': log, 'ops': '\n            '.join(ops), 'a': 'A', 'b': 'B', 'n': i + j + (k or 0), 'res': 'cf.get_result()'}
            ck.same('extension/%s%s' % ('+'.join(str(x) for x in (i, j, k) if x is not None), log), ck.interp(), TMPL % d, a, given=g,
                    rule='generate i then add j (then k) = generate i+j+k afresh')
        for ops, ra, rb in (
                ('cf.gen_iterations(3)\n            cf.reinitialize(A2, B2)\n            cf.gen_iterations(2)', 'A2', 'B2'),
                ('cf.gen_iterations(3)\n            cf.reinitialize(a_coeffs=A2)\n            cf.gen_iterations(2)', 'A2', 'B'),
                ('cf.gen_iterations(1, exec_finalize=False)\n            cf.reinitialize(b_coeffs=B2)\n            cf.gen_iterations(2)', 'A', 'B2'),
                ('cf.reinitialize(A2, B2)\n            cf.gen_iterations(1)\n            cf.reinitialize(A, B)\n            cf.gen_iterations(2)', 'A', 'B'),
                ('cf.gen_iterations(3)\n            cf.add_iterations(1)\n            cf.gen_iterations(2)', 'A', 'B'),
                ('cf.gen_iterations(3)\n            cf.gen_iterations(0)\n            cf.add_iterations(2)', 'A', 'B')):
            d = {'log': log, 'ops': ops, 'a': ra, 'b': rb, 'n': 2, 'res': 'cf.get_result()'}
            ck.same('reuse/%s%s' % (ops.replace('\n            ', '; ').replace('cf.', ''), log), ck.interp(), TMPL % d, a, given=g,
                    rule='state before a restart or reinitialisation does not influence the result')
    cap = 'min(N, math.ceil(abs(log(acc / base) / log(base))))'
    a1, g1 = args(1, 1)
    g1 = b_and(g1, le(ZERO, N))
    for kind_, pre, acc, spec in (('exp', '', ', acc', cap), ('super_exp', '', ', acc', cap), ('poly2sympoly', '', ', acc', 'N'), ('exp', '', '', 'N'),
                                  ('exp', 'cf.reinitialize(A2, B2)', ', acc', 'N'), ('exp', 'cf.reinitialize(a_coeffs=A2)', ', acc', 'N'),
                                  ('super_exp', 'cf.reinitialize(b_coeffs=B2)', ', acc', 'N'), ('super_exp', 'cf.reinitialize()', ', acc', 'N'),
                                  ('exp', 'cf.gen_iterations(2)', ', acc', cap), ('exp', 'cf.gen_iterations(0); cf.add_iterations(1)', ', acc', cap)):
        spec = '%s if acc else N' % spec if acc and 'min' in spec else 'N'
        ck.same('iterations/%s %s%s' % (kind_, pre, acc), ck.interp(), CAP % {'kind': kind_, 'pre': pre, 'acc': acc, 'spec': spec, 'n': 'N'}, a1,
                given=b_and(g1, b_not(eq(sym('base', 'num'), ONE)), lt(ZERO, sym('acc', 'num'))),
                rule='number of iterations = requested number, or the smaller number that the known convergence rate needs')
    for log in ('', ', logging=True'):
        ck.same('comparison with the target%s' % log, ck.interp(), CMP % {'log': log}, a, given=g)
