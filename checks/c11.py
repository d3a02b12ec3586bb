"""C11: the plain enumerator yields every polynomial pair of the ranges exactly once, in order, interlaces of equal polynomials squeezed,
dropping exactly the pairs that cannot converge exponentially when asked to."""
from engine.terms import *

MIN = 8

HEAD = '''
        import itertools
        from enum_poly_params import BasicEnumPolyParams, IndexedParameterEnumPolyParams, SparseParameterEnumPolyParams, AB_POLYS_TYPES
        from mpmath import isint, mpf
        from verif_out import out
        def choices(r):
            # every choice of one polynomial per interlace, every polynomial a choice of one coefficient per range
            polys = []
            for one in r:
                cs = [()]
                for lo, hi in one:
                    cs = [c + (x,) for c in cs for x in range(lo, hi)]
                polys.append(cs)
            res = [()]
            for cs in polys:
                res = [c + (p,) for c in res for p in cs]
            return res
        def squeeze(ps):
            if all([p == ps[0] for p in ps[1:]]):
                return (ps[0],)
            return ps
        def degree(p):
            d = -1
            for i, c in enumerate(p):
                if c != 0:
                    d = i
            return d
'''
SRC = HEAD + '''
        def code(ra, rb, only_exp):
            e = %(cls)s(num_of_iterations=2, enum_only_exp_conv=only_exp, avoid_int_roots=False, should_gen_contfrac=False)
            %(twice)s
            g, n = e.polys_generator(ra, rb)
            r = []
            for x in g:
                r.append((x[0], x[1], len(x)))
            out('pairs', r)
        def spec(ra, rb, only_exp):
            %(cls)s(num_of_iterations=2)
            r = []
            for pa in choices(ra):
                for pb in choices(rb):
                    a, b = squeeze(pa), squeeze(pb)
                    if only_exp and len(a) == 1 and len(b) == 1 and degree(b[0]) > 2 * degree(a[0]):
                        continue
                    r.append((a, b, 2))
            out('pairs', r)
'''
GEN = HEAD + '''
        from cont_fracs import ContFrac, ZeroB
        def code(ra, rb, avoid, N):
            e = BasicEnumPolyParams(num_of_iterations=N, enum_only_exp_conv=False, avoid_int_roots=False, should_gen_contfrac=True, avoid_zero_b=avoid)
            r = []
            g, n = e.polys_generator(ra, rb)
            for x in g:
                r.append((x[0].get_result(), x[0].get_p_q(), x[1], x[2]))
            out('fractions', r)
        def spec(ra, rb, avoid, N):
            BasicEnumPolyParams(num_of_iterations=N)
            r = []
            for pa in choices(ra):
                for pb in choices(rb):
                    cf = ContFrac(squeeze(pa), squeeze(pb), avoid_zero_b=avoid)
                    try:
                        cf.gen_iterations(N)
                    except ZeroB:
                        continue
                    r.append((cf.get_result(), cf.get_p_q(), squeeze(pa), squeeze(pb)))
            out('fractions', r)
'''

def rng(name, n=None):
    lo = sym(name, 'int')
    return mk_seq('list', [unit(lo), unit(sym(name + '_', 'int') if n is None else add(lo, K(n)))])

def ranges(letter, shape, n=None):
    """shape: number of coefficients of each interlace; n: number of values of each range (None: any)"""
    return mk_seq('list', [unit(mk_seq('list', [unit(rng('%s%d%d' % (letter, i, j), n)) for j in range(k)])) for i, k in enumerate(shape)])

def run(ck):
    for sa, sb, n in (((1,), (1,), None), ((2,), (1,), None), ((1,), (2,), None), ((2,), (2,), 1), ((1,), (3,), 1), ((3,), (2,), 1),
                      ((2,), (1,), 2), ((1,), (2,), 2), ((1, 1), (1,), 2), ((1,), (1, 1), 2), ((1, 1), (1, 1), 1), ((1, 1, 1), (2,), 1), ((1,), (1, 1, 1), 1),
                      ((2, 1), (1,), 1), ((2, 2), (1, 2), 1)):
        for only in (FALSE, TRUE):
            twice = 'list(e.polys_generator(ra, rb)[0])' if n and len(sa) + len(sb) == 2 else 'pass'
            ck.same('pairs/a %s, b %s, %s values per coefficient%s' % (sa, sb, n or 'any number of', ', exponential only' if only is TRUE else ''), ck.interp(),
                    SRC % {'cls': 'BasicEnumPolyParams', 'twice': twice}, [ranges('a', sa, n), ranges('b', sb, n), only],
                    rule='yielded pairs = Cartesian product of the ranges, squeezed, filtered')
    for sa, sb, n, N in (((1,), (1,), 2, K(2)), ((1,), (1,), 1, sym('N', 'int')), ((1,), (2,), 1, K(2)), ((1, 1), (1,), 1, K(2))):
        for avoid in (FALSE, TRUE):
            ck.same('continued fractions/a %s, b %s, %s iterations, zero numerators %s' % (sa, sb, show(N), 'skipped' if avoid is TRUE else 'kept'), ck.interp(), GEN,
                    [ranges('a', sa, n), ranges('b', sb, n), avoid, N], rule='each pair comes with its own evaluated continued fraction')
    from checks.c13 import SRC as ROOTS
    for sa, sb in (((1,), (1,)), ((1,), (2,)), ((1,), (2, 1)), ((1, 1), (2,)), ((1,), (2, 2))):
        ck.same('pairs without roots/a %s, b %s' % (sa, sb), ck.interp(), ROOTS, [ranges('a', sa, 1), ranges('b', sb, 1)],
                rule='a pair is left out iff some numerator polynomial has a forbidden root')
