"""C03: the clicks are exactly the pairs (left-hand side, stored continued fraction) whose values have the same leading digits."""
from engine.terms import *
from engine.framework import is_mpf
from checks.c04 import HEAD

MIN = 6

CLICK = HEAD + '''
        class Ev:
            def __init__(self, params, target=None):
                if isinstance(params, Ev):
                    self.v, self.d, self.t = params.v, params.d, params.t
                else:
                    (self.v, self.d), self.t = params, target
            def get_val(self):
                return self.v
            def is_degenerate(self):
                return self.d
        class LEnum:
            def __init__(self, params, target):
                self.p, self.t = params, target
            def __len__(self):
                return len(self.p)
            def generator(self):
                return [Ev(x, self.t) for x in self.p]
        def code(vals, vals2, k1, k2, e, acc, T, x):
            m = MITM(target_generator=lambda: T, postproc_funcs=[abs], postproc_funcs_filter=(0,), trunc_integer=%(trunc)s, hashtable_prec=acc,
                     ab_poly_class=Enum)
            t = m.dec_hashtable
            %(fill)s
            m.find_clicks({'enum': LEnum, 'eval': Ev}, vals)
            %(again)s
            r = m.get_filtered_params()
            out('clicks', [(ab, l.v, l.t, i, info) for ab, l, i, info in r])
            %(change)s
            out('table', list(t.items()))
        def spec(vals, vals2, k1, k2, e, acc, T, x):
            m = MITM(target_generator=lambda: T, postproc_funcs=[abs], postproc_funcs_filter=(0,), trunc_integer=%(trunc)s, hashtable_prec=acc,
                     ab_poly_class=Enum)
            t = m.dec_hashtable
            %(fill)s
            r = []
            for v, d in %(vals)s:
                k = key(v, %(trunc)s)
                if k in t and not d:
                    for ab, i in t[k]:
                        r.append((ab, v, T, i, None))
            out('clicks', r)
            %(change2)s
            out('table', list(t.items()))
'''
DEGEN = '''
        from lhs_evaluators import RationalFuncEvaluator, ULCDEvaluator
        from mpmath import isnormal, mpf
        from verif_out import out
        def code(P, Q, m, u, l, c, d, K):
            %(new)s
            %(before)s
            out('degenerate', bool(o.is_degenerate()))
        def spec(P, Q, m, u, l, c, d, K):
            %(new)s
            %(before)s
            %(spec)s
'''
FILL = {'0': 'pass', '1': 't[k1] = [e[0]]', '2': 't[k1] = [e[0], e[1]]', '11': 't[k1] = [e[0]]\n            t[k2] = [e[1]]',
        'p': 't["parameters"] = {"a": x}\n            t[k1] = [e[0]]'}

def run(ck):
    acc = sym('acc', 'int')
    def lhs(i):
        return mk_seq('tuple', [unit(sym('v%d' % i, 'num')), unit(sym('d%d' % i, 'bool'))])
    e = mk_seq('list', [unit(mk_seq('tuple', [unit(sym('ab%d' % i, '?')), unit(sym('i%d' % i, 'int'))])) for i in range(2)])
    k1, k2 = sym('k1', 'num'), sym('k2', 'num')
    def go(fill, n, trunc, again=False, change=False):
        it = ck.interp()
        it.assume_mpf = True
        d = {'trunc': trunc, 'fill': FILL[fill], 'again': "m.find_clicks({'enum': LEnum, 'eval': Ev}, vals2)" if again else 'pass', 'vals': 'vals2' if again else 'vals',
             'change': 'pass', 'change2': 'pass'}
        if change:
            d['change'] = "if len(r) > 0:\n                r[0][1].v = x\n                out('independent', [l.v for ab, l, i, info in r][1:])"
            d['change2'] = "if len(r) > 0:\n                out('independent', [v for ab, v, T, i, info in r][1:])"
        ck.same('clicks/table %s, %d left-hand sides, truncation %s%s%s' % (fill, n, trunc, ', searched twice' if again else '', ', then changed' if change else ''),
                it, CLICK % d, [mk_seq('list', [unit(lhs(i)) for i in range(n)]), mk_seq('list', [unit(lhs(5))]), k1, k2, e, acc, sym('T', 'num'), sym('x', 'num')],
                given=le(ONE, acc), rule='reported iff the fractional part of |value| is stored and the left-hand side is not degenerate')
    for trunc in ('True', 'False'):
        for fill, n in (('0', 1), ('1', 1), ('2', 1), ('11', 1), ('1', 2), ('p', 1), ('11', 2), ('1', 0)):
            go(fill, n, trunc)
    go('1', 1, 'True', again=True)
    go('2', 1, 'True', change=True)
    go('1', 2, 'True', change=True)
    from engine import polymodel
    K_ = sym('K', 'num')
    L = ('list', 'int')
    args = [sym('P', L), sym('Q', L), sym('m', 'int')] + [sym(x, 'int') for x in 'ulcd'] + [K_]
    ulcd = {'new': 'o = ULCDEvaluator((u, l, c, d), K)', 'spec': "u, l, c, d = o.get_params()\n            out('degenerate', u == -l and (u == 1 or u == -1))"}
    rat = {'new': 'o = RationalFuncEvaluator((P, Q, m), K)',
           'spec': "o.canonalize_params()\n            p, q, m = o.get_params()\n            out('degenerate', len(p) == 0 or p == [0] or len(p) == 1 and len(q) == 1)"}
    for kind, dd in (('ulcd', ulcd), ('rational', rat)):
        for before in ('pass', 'o.flip_sign()', 'o.add_int(m)', 'o.canonalize_params()', 'o.is_degenerate()\n            o.add_int(2)'):
            it = ck.interp()
            it.stubs['mpmath.isnormal'] = lambda it, a, kw: TRUE
            polymodel.install(it, K_)
            ck.same('degenerate/%s after %s' % (kind, before.replace('\n            ', '; ')), it, DEGEN % dict(dd, before=before), args,
                    rule='degenerate iff u = -l = 1 or -1 (ULCD), iff the quotient in lowest terms is a constant or zero (rational)')
