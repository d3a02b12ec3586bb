"""C17: the uniqueness filter keeps the first click of every class of equivalent clicks and nothing else."""
from engine.terms import *

MIN = 4

SRC = '''
        from enum_params import MITM
        from mpmath import mpf
        from verif_out import out
        class Enum:
            def __init__(self, **kw):
                pass
        class L:
            def __init__(self, i, eqv):
                self.i, self.eqv = i, eqv
            @staticmethod
            def is_equiv(p, q):
                # an equivalence relation: reflexive and symmetric
                i, j = p[1].i, q[1].i
                return True if i == j else p[1].eqv[min(i, j)][max(i, j)]
        def mitm():
            return MITM(target_generator=lambda: mpf(1), ab_poly_class=Enum)
        def code(ab, e, f, info):
            m = mitm()
            m.filtered_params = [(ab[i], L(i, e), f[i], info[i]) for i in range(%(n)d)]
            m.filter_uniq_params()
            %(twice)s
            out('clicks', [(a, l.i, k, c) for a, l, k, c in m.get_filtered_params()])
        def spec(ab, e, f, info):
            mitm()
            r = []
            for i in range(%(n)d):
                if not any([e[j][i] for j in range(i)]):
                    r.append((ab[i], i, f[i], info[i]))
            out('clicks', r)
'''

def run(ck):
    for n in (0, 1, 2, 3, 4):
        es = [[sym('e%d%d' % (i, j), 'bool') for j in range(n)] for i in range(n)]
        E = mk_seq('list', [unit(mk_seq('list', [unit(x) for x in r])) for r in es])
        def e(i, j):
            return truth(es[min(i, j)][max(i, j)])
        given = TRUE
        for i in range(n):
            for j in range(n):
                for k in range(n):
                    if len({i, j, k}) == 3 and i < k:
                        given = b_and(given, b_not(b_and(e(i, j), e(j, k), b_not(e(i, k)))))
        vals = [mk_seq('list', [unit(sym('%s%d' % (c, i), s)) for i in range(n)]) for c, s in (('ab', '?'), ('f', 'int'), ('info', '?'))]
        for twice in ('pass', 'm.filter_uniq_params()') if n else ('pass',):
            ck.same('keep first/%d clicks%s' % (n, '' if twice == 'pass' else ', filtered twice'), ck.interp(), SRC % {'n': n, 'twice': twice},
                    [vals[0], E, vals[1], vals[2]], given=given, rule='kept iff not equivalent to an earlier click')
