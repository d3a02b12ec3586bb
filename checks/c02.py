"""C02: refinement keeps exactly the clicks that still agree at the required accuracy, and turns each kept one into an equation."""
from engine.terms import *
from engine.framework import is_mpf
from checks.c04 import HEAD

MIN = 6

REF = HEAD + '''
        from cont_fracs import ContFrac
        from mpmath import nint
        class Ev:
            def __init__(self, v, name):
                self.v, self.done, self.name = v, False, name
            def get_val(self):
                return self.v
            def flip_sign(self):
                self.v = -self.v
                self.done = False
            def add_int(self, n):
                self.v = self.v + n
                self.done = False
            def canonalize_params(self):
                self.done = True
        def code(clicks, f, acc, acc2, T):
            m = MITM(target_generator=lambda: T, postproc_funcs=f, postproc_funcs_filter=(0, 1), trunc_integer=%(trunc)s, hashtable_prec=acc2,
                     ab_poly_class=Enum)
            m.filtered_params = [(ab, Ev(v, i), i, info) for ab, v, i, info in clicks]
            %(call)s
            out('clicks', [(ab, l.v, l.done, l.name, i, info) for ab, l, i, info in m.get_filtered_params()])
        def spec(clicks, f, acc, acc2, T):
            MITM(postproc_funcs=f, ab_poly_class=Enum)
            r = []
            for ab, lhs, i, info in clicks:
                try:
                    rhs = f[i](%(value)s)
                except ZeroDivisionError:
                    continue
                if not isnormal(rhs):
                    continue
                if dig(key(rhs, %(trunc)s), acc) != dig(key(lhs, %(trunc)s), acc):
                    continue
                if rhs * lhs < 0:
                    lhs = -lhs
                r.append((ab, lhs + int(nint(rhs - lhs)), True, i, i, info))
            out('clicks', r)
'''
CMP = HEAD + '''
        def code(x, y, acc):
            out('same', bool(MITM.compare_dec_with_accuracy(x, y, acc)))
        def spec(x, y, acc):
            out('same', bool(dig(x, acc) == dig(y, acc)))
'''

def run(ck):
    acc, acc2 = sym('acc', 'int'), sym('acc2', 'int')
    f = mk_seq('list', [unit(sym('f%d' % i, 'fn')) for i in range(2)])
    def click(i, info):
        one = lambda n: mk_seq('tuple', [unit(mk_seq('tuple', [unit(sym('%s%d' % (n, i), 'num'))]))])
        return mk_seq('tuple', [unit(mk_seq('tuple', [unit(one('a')), unit(one('b'))])), unit(sym('v%d' % i, 'num')), unit(K(i)), unit(info)])
    info = mk_seq('tuple', [unit(K('exp')), unit(mk_seq('tuple', [unit(K(Fraction(1, 10 ** 45))), unit(sym('c', 'num'))]))])     # 10^-120 needs two iterations
    for trunc in ('True', 'False'):
        for how, call, value in (
                ('constant number of iterations', 'm.refine_clicks_with_const_num_of_iters(accuracy=acc, num_of_iterations=2)',
                 'eval_dec_contfrac_by_polys(ab[0], ab[1], 2)'),
                ('convergence information', 'm.refine_clicks_with_convergence_info(accuracy=acc, num_of_iterations=3)',
                 'contfrac(ab, info, acc)')):
            for n in (0, 1, 2):
                for inf in ((NONE, info) if 'info' in value else (NONE,)):
                    if n == 2 and inf is info:
                        continue
                    it = ck.interp()
                    it.assume_mpf = True
                    src = REF % {'trunc': trunc, 'call': call, 'value': value}
                    src += '''
        def contfrac(ab, info, acc):
            cf = ContFrac(a_coeffs=ab[0], b_coeffs=ab[1])
            if info:
                cf.set_approach_type_and_params(info)
            cf.gen_iterations(3, mpf('1E-%d' % (acc + 100)))
            return cf.get_result()
'''
                    ck.same('refine/%s%s, %d clicks, truncation %s' % (how, ' given' if inf is info else '', n, trunc), it, src,
                            [mk_seq('list', [unit(click(i, inf)) for i in range(n)]), f, acc if 'info' not in value else K(20), acc2, sym('T', 'num')],
                            given=b_and(le(ONE, acc), le(ONE, acc2)), rule='kept iff value usable and leading digits agree; kept side = value of the continued fraction up to sign and nearest integer')
    ck.same('comparison', ck.interp('enum_params'), CMP, [sym('x', 'num'), sym('y', 'num'), acc], given=le(ONE, acc), rule='same leading digits')
