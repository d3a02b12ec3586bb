"""C01: adjusting a left-hand side (sign flip, integer shift, canonicalisation) keeps value and parameters consistent."""
import itertools
from engine.terms import *
from engine.terms import _intern
from engine import terms as tm, polymodel

MIN = 20

OPS = {'flip': ('o.flip_sign()', 'v = -v'),
       'add': ('o.add_int(n%d)', 'v = v + n%d'),
       'query': ('o.is_degenerate(); o.get_latex_exp("K")', 'pass'),
       'canon': ('o.canonalize_params()', 'pass'),
       'same': ('o.reinit_params(o.get_params())', 'pass')}

def script(seq):
    code, spec = [], []
    for i, op in enumerate(seq):
        a, b = OPS[op]
        if '%d' in a:
            a, b = a % (i + 1), b % (i + 1)
        code += a.split('; ')
        spec.append(b)
    ind = '\n            '
    return ind.join(code), ind.join(spec)

ULCD = '''
        from lhs_evaluators import ULCDEvaluator
        from verif_out import out
        def code(u, l, c, d, K, n1, n2, n3):
            o = ULCDEvaluator((u, l, c, d), K)
            %s
            out('value', o.get_val())
            u, l, c, d = o.get_params()
            out('params', (u / K + K / l + c) / d)
            out('target', o.get_target_const())
        def spec(u, l, c, d, K, n1, n2, n3):
            v = (u / K + K / l + c) / d
            %s
            out('value', v)
            out('params', v)
            out('target', K)
'''

def run(ck):
    num = lambda n: sym(n, 'num')
    integer = lambda n: sym(n, 'int')
    depth = 3
    for k in range(0, depth + 1):
        for seq in itertools.product(['flip', 'add', 'query', 'canon', 'same'] if k < 3 else ['flip', 'add', 'query'], repeat=k):
            it = ck.interp()
            ck.same('ulcd/' + '-'.join(seq), it, ULCD % script(seq),
                    [num('u'), num('l'), num('c'), num('d'), num('K'), integer('n1'), integer('n2'), integer('n3')],
                    rule='value after every operation sequence = the formula applied to the stored parameters = the adjusted value')
    rational(ck)

RAT = '''
        from lhs_evaluators import RationalFuncEvaluator
        from verif_out import out
        def poly(p, K):
            r = 0
            for j in range(len(p)):
                r += p[j] * K ** j
            return r
        def code(P, Q, m, K, n1, n2, n3):
            o = RationalFuncEvaluator((P, Q, m), K)
            %s
            out('value', o.get_val())
            p, q, i = o.get_params()
            out('params', poly(p, K) / poly(q, K) + i)
            out('target', o.get_target_const())
        def spec(P, Q, m, K, n1, n2, n3):
            v = poly(P, K) / poly(Q, K) + m
            %s
            out('value', v)
            out('params', v)
            out('target', K)
'''

def rational(ck):
    Kc = sym('K', 'num')
    L = ('list', 'int')
    args = [sym('P', L), sym('Q', L), sym('m', 'int'), Kc, sym('n1', 'int'), sym('n2', 'int'), sym('n3', 'int')]
    for k in range(0, 4):
        for seq in itertools.product(['flip', 'add', 'query', 'canon', 'same'] if k < 3 else ['flip', 'add', 'canon'], repeat=k):
            it = ck.interp()
            it.stubs['mpmath.isnormal'] = lambda it, a, kw: TRUE
            polymodel.install(it, Kc)
            ck.same('rational/' + '-'.join(seq), it, RAT % script(seq), args,
                    rule='value after every operation sequence = the formula applied to the stored parameters = the adjusted value')
    history(ck, Kc, args)

HIST = {
 'copy of an adjusted object is equal and independent': '''
        def code(P, Q, m, K, n1, n2, n3):
            o = NEW
            o.flip_sign()
            p = CLS(o)
            out('copy value', p.get_val() - o.get_val())
            out('copy target', p.get_target_const())
            v = o.get_val()
            p.add_int(n1)
            p.flip_sign()
            p.canonalize_params()
            out('original value', o.get_val() - v)
            out('original params', FORMULA(o.get_params(), K) - v)
            w = p.get_val()
            o.add_int(n2)
            o.canonalize_params()
            o.flip_sign()
            out('copy untouched', p.get_val() - w)
            out('copy params untouched', FORMULA(p.get_params(), K) - w)
        def spec(P, Q, m, K, n1, n2, n3):
            for k in ('copy value', 'original value', 'original params', 'copy untouched', 'copy params untouched'):
                out(k, 0)
            out('copy target', K)
''',
 'reinitialised object behaves as a new one': '''
        def code(P, Q, m, K, n1, n2, n3):
            o = OTHER
            o.flip_sign()
            o.is_degenerate()
            o.add_int(n1)
            o.canonalize_params()
            o.reinit_params(PARAMS)
            out('value', o.get_val())
            out('degenerate', o.is_degenerate())
            o.canonalize_params()
            out('canonical params', o.get_params())
            out('latex', o.get_latex_exp('K'))
        def spec(P, Q, m, K, n1, n2, n3):
            o = NEW
            out('value', o.get_val())
            out('degenerate', o.is_degenerate())
            o.canonalize_params()
            out('canonical params', o.get_params())
            out('latex', o.get_latex_exp('K'))
''',
}
HEAD = '''
        from lhs_evaluators import RationalFuncEvaluator, ULCDEvaluator
        from verif_out import out
        def poly(p, K):
            r = 0
            for j in range(len(p)):
                r += p[j] * K ** j
            return r
        def rat(t, K):
            p, q, m = t
            return poly(p, K) / poly(q, K) + m
        def ulcd(t, K):
            u, l, c, d = t
            return (u / K + K / l + c) / d
'''
NAN = '''
        from lhs_evaluators import RationalFuncEvaluator
        from mpmath import isnormal, mpf, nan
        from verif_out import out
        def poly(p, K):
            r = 0
            for j in range(len(p)):
                r += p[j] * K ** j
            return r
        def value(P, Q, m, K):
            if isnormal(poly(P, K)) and isnormal(poly(Q, K)):
                return poly(P, K) / poly(Q, K) + m
            return mpf('nan')
        def code(P, Q, m, P2, Q2, m2, K):
            o = RationalFuncEvaluator((P, Q, m), K)
            out('new', o.get_val())
            o.reinit_params((P2, Q2, m2))
            out('reinit', o.get_val())
        def spec(P, Q, m, P2, Q2, m2, K):
            out('new', value(P, Q, m, K))
            out('reinit', value(P2, Q2, m2, K))
'''

CANON = '''
        from lhs_evaluators import RationalFuncEvaluator, poly2sympoly
        from mpmath import isnormal, mpf, nan
        from verif_out import out
        def code(P, Q, m, K, n1, n2, n3):
            o = RationalFuncEvaluator((P, Q, m), K)
            %s
            o.canonalize_params()
            p, q, n = o.get_params()
            a, b = poly2sympoly(P), poly2sympoly(Q)
            g = a.gcd(b)
            out('denominator', q)
            out('numerator', p)
            out('integer', n)
        def spec(P, Q, m, K, n1, n2, n3):
            import math
            from lhs_evaluators import sympoly2poly
            s, t = %s
            a, b = poly2sympoly(P), poly2sympoly(s(Q))
            g = a.gcd(b)
            a, b = a.div(g, auto=False)[0], b.div(g, auto=False)[0]
            quotient, remainder = a.div(b)
            k = math.ceil(quotient.all_coeffs()[-1])
            out('denominator', sympoly2poly(b))
            out('numerator', sympoly2poly((quotient - k) * b + remainder))
            out('integer', t(m) + k)
'''

def history(ck, Kc, args):
    same, minus = 'lambda q: q', 'lambda q: [-1 * c for c in q]'
    for name, before, how in (('new', 'pass', '%s, lambda m: m' % same), ('shifted', 'o.add_int(n1)', '%s, lambda m: m + n1' % same),
                              ('flipped', 'o.flip_sign()', '%s, lambda m: -m' % minus), ('flipped, shifted', 'o.flip_sign()\n            o.add_int(n1)', '%s, lambda m: n1 - m' % minus),
                              ('asked', 'o.get_val()\n            o.get_params()', '%s, lambda m: m' % same)):
        it = ck.interp()
        it.stubs['mpmath.isnormal'] = lambda it, a, kw: TRUE
        polymodel.install(it, Kc)
        ck.same('rational/canonical form, ' + name, it, CANON % (before, how), args,
                rule='lowest terms, the free coefficient of the polynomial quotient moved into the integer up to its ceiling')
    for kind_ in ('ulcd', 'rational'):
        if kind_ == 'ulcd':
            rep = {'NEW': 'ULCDEvaluator((P, Q, m, n3), K)', 'OTHER': 'ULCDEvaluator((n1, n2, n3, m), K)', 'PARAMS': '(P, Q, m, n3)',
                   'CLS': 'ULCDEvaluator', 'FORMULA': 'ulcd'}
            a = [sym('P', 'num'), sym('Q', 'num')] + args[2:]
        else:
            rep = {'NEW': 'RationalFuncEvaluator((P, Q, m), K)', 'OTHER': 'RationalFuncEvaluator((Q, P, n2), K)', 'PARAMS': '(P, Q, m)',
                   'CLS': 'RationalFuncEvaluator', 'FORMULA': 'rat'}
            a = args
        for name, src in HIST.items():
            for k, v in rep.items():
                src = src.replace(k, v)
            it = ck.interp()
            it.stubs['mpmath.isnormal'] = lambda it, a, kw: TRUE
            polymodel.install(it, Kc)
            ck.same('%s/%s' % (kind_, name), it, HEAD + src, a, rule='relation between public queries')
    L = ('list', 'int')
    ck.same('rational/value is undefined exactly when a polynomial value is not normal', ck.interp(), NAN,
            args[:3] + [sym('P2', L), sym('Q2', L), sym('m2', 'int'), Kc])
