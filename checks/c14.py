"""C14: every enumerator announces exactly the number of candidates its ranges describe."""
from engine.terms import *
from checks.c11 import ranges
from checks.c15 import FORMS, lst

MIN = 10

POLY = '''
        from enum_poly_params import BasicEnumPolyParams, IndexedParameterEnumPolyParams, SparseParameterEnumPolyParams
        from verif_out import out
        def code(ra, rb):
            e = %(cls)s(avoid_int_roots=False, enum_only_exp_conv=False, should_gen_contfrac=False%(sp)s)
            %(before)s
            g, n = e.polys_generator(ra, rb)
            out('announced', n)
        def spec(ra, rb):
            e = %(cls)s(avoid_int_roots=False, enum_only_exp_conv=False, should_gen_contfrac=False%(sp)s)
            g, n = e.polys_generator(ra, rb)
            out('announced', len(list(g)))
'''
ULCD = '''
        from lhs_evaluators import ULCDEnumerator, RationalFuncEnumerator
        from verif_out import out
        def size(r, d):
            if isinstance(r, int):
                return r if d else 2 * r + 1
            if len(r) == 2:
                return r[1] - r[0]
            if len(r) == 3:
                return len(range(r[0], r[1], r[2]))
            return len(r)
        def code(u, l, c, d, T):
            out('announced', len(ULCDEnumerator((u, l, c, d), T)))
        def spec(u, l, c, d, T):
            out('announced', size(u, False) * size(l, False) * size(c, False) * size(d, True))
'''
RAT = '''
        from lhs_evaluators import RationalFuncEnumerator
        from verif_out import out
        def code(ps, qs, T):
            out('announced', len(RationalFuncEnumerator((ps, qs, False), T)))
        def spec(ps, qs, T):
            n = 1
            for lo, hi in ps:
                n *= hi - lo
            for lo, hi in qs:
                n *= hi - lo
            out('announced', n)
'''

def run(ck):
    def rng(letter, shape, n):
        """ranges of n values, or (None) of any number of values, each its own"""
        if n:
            return ranges(letter, shape, n)
        def one(i, j):
            lo = sym('%s%d%d' % (letter, i, j), 'int')
            return lst(lo, add(lo, app('len', sym('L%s%d%d' % (letter, i, j), ('list', 'int')))))
        return lst(*[lst(*[one(i, j) for j in range(k)]) for i, k in enumerate(shape)])
    for cls in ('BasicEnumPolyParams', 'IndexedParameterEnumPolyParams'):
        for sa, sb, n in (((1,), (1,), None), ((2,), (1,), None), ((1,), (2,), None), ((2,), (2,), None), ((1, 1), (1,), 2), ((1,), (1, 2), 2), ((3,), (2,), 1), ((1,), (4,), 3)):
            ra, rb = rng('a', sa, n), rng('b', sb, n)
            ck.same('%s/a %s, b %s, %s values' % (cls, sa, sb, n or 'any number of'), ck.interp(), POLY % {'cls': cls, 'sp': '', 'before': 'pass'}, [ra, rb],
                    rule='announced length = number of pairs the ranges describe')
    for sa, sb, n in (((1,), (1,), (1, 1)), ((1,), (1,), (3, 2)), ((2,), (1,), (3, 1)), ((1,), (2,), (1, 4)), ((2,), (2,), (3, 3)),
                      ((1, 1), (1,), (2, 2)), ((1,), (1, 1), (1, 3)), ((1, 1, 1), (1,), (2, 1)), ((2, 2), (1,), (3, 1)), ((2,), (1,), (1, 2)), ((1,), (3,), (2, 2))):
        for k in (1, 2):
            if k == 2 and sum(sa) + sum(sb) > 3:
                continue
            ck.same('sparse/a %s in %d, b %s in %d, %d values' % (sa, n[0], sb, n[1], k), ck.interp(),
                    POLY % {'cls': 'SparseParameterEnumPolyParams', 'sp': ', special_params=%s' % (n,), 'before': 'pass'}, [ranges('a', sa, k), ranges('b', sb, k)],
                    rule='announced length = number of placements times number of coefficient choices')
    for cls, sp in (('BasicEnumPolyParams', ''), ('IndexedParameterEnumPolyParams', ''), ('SparseParameterEnumPolyParams', ', special_params=(3, 2)')):
        for sa, sb in (((1,), (1,)), ((1,), (2,)), ((1, 1), (1,))):
            for kind, before in (('other ranges', 'e.polys_generator([[[0, 7]]], [[[1, 12]]])'),
                                 ('other ranges, enumerated', 'list(e.polys_generator([[[0, 2]], [[3, 4]]], [[[1, 3]]])[0])'),
                                 ('the same ranges', 'e.polys_generator(ra, rb)')):
                ck.same('%s/asked before for %s, a %s, b %s' % (cls, kind, sa, sb), ck.interp(), POLY % {'cls': cls, 'sp': sp, 'before': before},
                        [ranges('a', sa, 2), ranges('b', sb, 2)], rule='announced length = number of pairs the ranges of this request describe')
    for name, rs in FORMS.items():
        n = app('len', sym('L', ('list', 'int')))
        def nonneg(t):
            if t is sym('n', 'int'):
                return n
            if name == 'any range of u' and t is rs[0]:
                return lst(sym('u', 'int'), add(sym('u', 'int'), n))
            return t
        ck.same('ulcd/' + name, ck.interp(), ULCD, [nonneg(r) for r in rs] + [sym('T', 'num')], rule='announced length = product of the range sizes')
    for k, j in ((1, 1), (2, 1), (1, 2), (2, 3)):
        r = [lst(*[lst(sym('%s%d' % (n, i), 'int'), sym('%s%d_' % (n, i), 'int')) for i in range(m)]) for n, m in (('p', k), ('q', j))]
        ck.same('rational/%d over %d coefficients' % (k, j), ck.interp(), RAT, r + [sym('T', 'num')], rule='announced length = product of the range sizes')
