"""C12: indexed polynomials expand a_0 x^n + a_1 (x+1)^n + ... exactly; sparse enumeration yields every placement of the coefficients exactly once."""
from engine.terms import *
from checks.c11 import HEAD, ranges

MIN = 8

IDX = HEAD + '''
        def code(ra, rb, x):
            e = IndexedParameterEnumPolyParams(avoid_int_roots=False, should_gen_contfrac=False)
            g, n = e.polys_generator(ra, rb)
            r = []
            for pa, pb in g:
                r.append([(len(p), sum([c * x ** j for j, c in enumerate(p)])) for ps in (pa, pb) for p in ps])
            out('values', r)
        def spec(ra, rb, x):
            IndexedParameterEnumPolyParams()
            r = []
            for pa in choices(ra):
                for pb in choices(rb):
                    r.append([(len(p), sum([c * (x + i) ** (len(p) - 1) for i, c in enumerate(p)])) for ps in (pa, pb) for p in ps])
            out('values', r)
'''
SPARSE = HEAD + '''
        def code(ra, rb, only_exp):
            e = SparseParameterEnumPolyParams(avoid_int_roots=False, should_gen_contfrac=False, enum_only_exp_conv=only_exp, special_params=%(n)s)
            g, n = e.polys_generator(ra, rb)
            r = list(g)
            out('how many', len(r))
            out('pairs', frozenset(r))
        def masks(ps, n):
            res = [()]
            for p in ps:
                res = [q + (tuple([p[m.index(i)] if i in m else 0 for i in range(n)]),) for q in res for m in itertools.combinations(range(n), len(p))]
            return res
        def spec(ra, rb, only_exp):
            SparseParameterEnumPolyParams(special_params=%(n)s)
            r = []
            for pa in choices(ra):
                for qa in masks(pa, %(n)s[0]):
                    for pb in choices(rb):
                        for qb in masks(pb, %(n)s[1]):
                            a, b = squeeze(qa), squeeze(qb)
                            if only_exp and len(a) == 1 and len(b) == 1 and degree(b[0]) > 2 * degree(a[0]):
                                continue
                            r.append((a, b))
            out('how many', len(r))
            out('pairs', frozenset(r))
'''
SPGEN = HEAD + '''
        from cont_fracs import ContFrac, ZeroB
        def code(ra, rb):
            e = SparseParameterEnumPolyParams(num_of_iterations=2, enum_only_exp_conv=False, avoid_int_roots=False, special_params=(1, 3))
            g, n = e.polys_generator(ra, rb)
            out('pairs', [(a, b, cf.get_result()) for cf, a, b in g])
        def spec(ra, rb):
            e = SparseParameterEnumPolyParams(num_of_iterations=2, enum_only_exp_conv=False, avoid_int_roots=False, should_gen_contfrac=False, special_params=(1, 3))
            g, n = e.polys_generator(ra, rb)
            r = []
            for a, b in g:
                cf = ContFrac(a, b, avoid_zero_b=True)
                try:
                    cf.gen_iterations(2)
                except ZeroB:
                    continue
                r.append((a, b, cf.get_result()))
            out('pairs', r)
'''

def run(ck):
    for sa, sb in (((1,), (1,)), ((2,), (2,)), ((3,), (2,)), ((1,), (4,)), ((5,), (1,)), ((2, 3), (1,)), ((1,), (3, 2)), ((7,), (1,))):
        ck.same('indexed/a %s, b %s' % (sa, sb), ck.interp(), IDX, [ranges('a', sa, 1), ranges('b', sb, 1), sym('x', 'num')],
                rule='value of the expanded polynomial = sum of a_i (x+i)^n, for all x')
    for sa, sb, n in (((1,), (1,), (1, 1)), ((1,), (1,), (3, 2)), ((2,), (1,), (3, 1)), ((1,), (2,), (1, 4)), ((2,), (2,), (3, 3)),
                      ((1, 1), (1,), (2, 2)), ((1,), (1, 1), (1, 3)), ((1, 1, 1), (1,), (2, 1)), ((2, 2), (1,), (3, 1)), ((2,), (1,), (1, 2)), ((1,), (3,), (2, 2))):
        for only in (FALSE, TRUE) if len(sa) + len(sb) == 2 else (FALSE,):
            ck.same('sparse/a %s in %d, b %s in %d%s' % (sa, n[0], sb, n[1], ', exponential only' if only is TRUE else ''), ck.interp(), SPARSE % {'n': n},
                    [ranges('a', sa, 1), ranges('b', sb, 1), only], rule='every placement of the coefficients exactly once')
    ck.same('sparse/continued fractions', ck.interp(), SPGEN, [ranges('a', (1,), 1), ranges('b', (2,), 1)], rule='each placement comes with its own continued fraction')
