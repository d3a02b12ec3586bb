"""C24: every equation written for the document states the identity its click stands for."""
from engine.terms import *
from checks import latexsem
from checks.c23 import REG

MIN = 40

def strs(n):
    return mk_seq('list', [unit(x) for x in n])

POST = '''
        import postprocfuncs as P
        import mpmath
        from verif_out import out
        def code(l, r, L, x):
            a, b = P.POSTPROC_FUNCS_LATEX[%(text)r](l, r)
            out('lhs', a)
            out('rhs', b)
        def spec(l, r, L, x):
            def inv(x):
                return 1/x
            def root(x):
                return mpmath.sqrt(x)
            def tan(x):
                return mpmath.tan(x)
            def cot(x):
                return mpmath.cot(x)
            def ln(x):
                return mpmath.log(x)
            out('lhs', L)
            out('rhs', %(value)s)
'''
ULCD = '''
        from lhs_evaluators import ULCDEvaluator
        from verif_out import out
        def code(p, name, t, u, l, c, d):
            e = ULCDEvaluator(tuple(p), t)
            %(pre)s
            out('formula', e.get_latex_exp(name))
            out('again', e.get_latex_exp(name))
            out('params', list(e.get_params()))
        def spec(p, name, t, u, l, c, d):
            e = ULCDEvaluator(tuple(p), t)
            %(spre)s
            r = (u/t + t/l + c)/d
            out('formula', r)
            out('again', r)
            out('params', [u, l, c, d])
'''
RAT = '''
        from lhs_evaluators import RationalFuncEvaluator
        from verif_out import out
        RationalFuncEvaluator.canonalize_params = lambda self: None
        def code(p, q, k, name, t):
            e = RationalFuncEvaluator((list(p), list(q), k), t)
            out('formula', e.get_latex_exp(name))
            out('again', e.get_latex_exp(name))
        def spec(p, q, k, name, t):
            e = RationalFuncEvaluator((list(p), list(q), k), t)
            r = sum([c * t**i for i, c in enumerate(p)])/sum([c * t**i for i, c in enumerate(q)]) + k
            out('formula', r)
            out('again', r)
'''
CF = '''
        from latex import latex_cont_frac
        from verif_out import out
        def code(a, b, dots):
            out('formula', latex_cont_frac(list(a), list(b)))
        def spec(a, b, dots):
            r = a[-1] + dots
            for i in range(len(a) - 2, -1, -1):
                r = a[i] + b[i + 1]/r
            out('formula', r)
'''
EQN = '''
        import enum_params, cont_fracs
        from enum_params import MITM
        from mpmath import mpf
        from verif_out import out
        import postprocfuncs as P
        class Enum:
            def __init__(self, **kw):
                pass
        class L:
            def __init__(self, v):
                self.v, self.asked = v, []
            def get_latex_exp(self, name):
                self.asked.append(name)
                return self.v
        def build(self, p, iterations=400):
            if p[3]:
                raise cont_fracs.ZeroB('zero')
            return None, None, p[1]
        MITM.build_contfrac_from_params = build
        N, D = %(n)d, %(depth)d
        def code(pa, pb, l, lv, dots, bad):
            m = MITM(target_generator=lambda: mpf(1), target_name=%(name)r, ab_poly_class=Enum)
            ls = [L(l[j]) for j in range(N)]
            m.filtered_params = [((pa[j], pb[j]), ls[j], %(idx)d, bad[j]) for j in range(N)]
            out('equations', m.get_results_as_eqns(P.POSTPROC_FUNCS, depth=D))
            out('names', [x.asked for x in ls])
            out('clicks', [(q[0], q[1].v, q[2], q[3]) for q in m.get_filtered_params()])
        def spec(pa, pb, l, lv, dots, bad):
            MITM(target_generator=lambda: mpf(1), target_name=%(name)r, ab_poly_class=Enum)
            eqns, names = [], []
            for j in range(N):
                def at(p, i):
                    return sum([c * i**k for k, c in enumerate(p[i %% len(p)])])
                r = at(pa[j], D - 1) + dots
                for k in range(D - 2, -1, -1):
                    r = at(pa[j], k) + at(pb[j], k + 1)/r
                if not bad[j]:
                    eqns.append((lv[j], %(post)s))
                names.append([] if bad[j] else [%(shown)r])
            out('equations', eqns)
            out('names', names)
            out('clicks', [((pa[j], pb[j]), l[j], %(idx)d, bad[j]) for j in range(N)])
'''
def run(ck):
    x, L = sym('x', 'num'), sym('L', 'num')
    l, r = sym('l', 'str'), sym('r', 'str')
    for text, value in REG:
        ck.same('function/%s' % text, ck.interp(), POST % {'text': text, 'value': value}, [l, r, L, x], norm=latexsem.read(exprs={l: L, r: x}), rule='reads as the function applied to the right-hand side')
    name, t = sym('T', 'str'), sym('t', 'num')
    u, ll, c, d = [sym(s, 'int') for s in 'ulcd']
    rd = latexsem.read(names={name: t})
    ok = b_and(b_not(eq(ll, ZERO)), b_not(eq(d, ZERO)), b_not(eq(t, ZERO)))
    ck.same('ULCD', ck.interp(), ULCD % {'pre': 'pass', 'spre': 'pass'}, [strs([u, ll, c, d]), name, t, u, ll, c, d], norm=rd, given=ok, rule='reads as (u/x + x/l + c)/d')
    k = sym('k', 'int')
    for text, atom in (('\\pi', '\\pi'), ('e', 'name:e')):
        for m, n in ((1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (4, 1), (12, 1), (1, 12)):
            p = [sym('p%d' % i, 'int') if i in (0, m - 1) or m < 9 else ZERO for i in range(m)]
            q = [sym('q%d' % i, 'int') if i in (0, n - 1) or n < 9 else ZERO for i in range(n)]
            g = b_and(b_or(*[b_not(eq(z, ZERO)) for z in p]), b_or(*[b_not(eq(z, ZERO)) for z in q]))
            it = ck.interp()
            it.stubs['mpmath.isnormal'] = lambda it, a, kw: TRUE
            ck.same('rational/%s, %d over %d coefficients' % (text, m, n), it, RAT, [strs(p), strs(q), k, K(text), sym(atom, 'num')], norm=rd, given=g, rule='reads as P(x)/Q(x) + k')
    for depth in (1, 2, 3, 5):
        a = [sym('a%d' % i, 'int') for i in range(depth)]
        b = [sym('b%d' % i, 'int') for i in range(depth)]
        ck.same('continued fraction/depth %d' % depth, ck.interp(), CF, [strs(a), strs(b), sym('dots', 'num')], norm=latexsem.read(), rule='reads as a0 + b1/(a1 + ...)')
    import itertools
    def polys(tag, lens):
        return strs([strs([sym('%s%d%d' % (tag, i, j), 'int') for j in range(n)]) for i, n in enumerate(lens)])
    for idx, post in ((0, 'r'), (1, '1/r'), (4, 'r*r*r')):
        for nm, shown in (('pi', '\\pi'), ('phi', '\\varphi'), ('e', 'e'), ('apery', 'apery')):
            for shapes in ([((2,), (1,))], [((1, 2), (2,)), ((1,), (1, 1))]) if idx == 1 and nm != 'e' else ([((3,), (2, 1, 1))], []):
                n = len(shapes)
                l = [sym('l%d' % i, 'str') for i in range(n)]
                lv = [sym('lv%d' % i, 'num') for i in range(n)]
                depth = 3 if n > 1 else 4
                ck.same('equations/%s, function %d, %s' % (nm, idx, shapes), ck.interp(),
                        EQN % {'n': n, 'depth': depth, 'name': nm, 'idx': idx, 'post': post, 'shown': shown},
                        [strs([polys('a%d' % i, s[0]) for i, s in enumerate(shapes)]), strs([polys('b%d' % i, s[1]) for i, s in enumerate(shapes)]), strs(l), strs(lv),
                         sym('dots', 'num'), strs([sym('z%d' % i, 'bool') for i in range(n)])],
                        norm=latexsem.read(exprs=dict(zip(l, lv))), rule='one equation per click: left-hand side = function of the continued fraction of its polynomials')
