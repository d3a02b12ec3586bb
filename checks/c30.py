"""C30: a stored search whose settings are redefined goes on with exactly the new settings, on the table it has."""
from engine.terms import *
from checks.c04 import HEAD

MIN = 6

SRC = HEAD.replace('class Enum:', 'class Plain:') + '''
        import enum_params, mpmath
        from decimal_hashtable import DecimalHashTable
        KW = []
        class Old:
            kind = 'old'
            def __init__(self, **kw):
                self.kw = kw
                KW.append((self.kind, kw['prec'], kw['num_of_iterations'], kw['special_params'], kw['enum_only_exp_conv'], kw.get('avoid_int_roots', True),
                           kw.get('avoid_zero_b', True), kw.get('should_gen_contfrac', True), kw.get('threshold', None)))
            def polys_generator(self, range_a, range_b):
                KW.append((self.kind, 'used', range_b))
                return range_a, len(range_a)
        class New(Old):
            kind = 'new'
        class Stop(Exception):
            pass
        CLASSES = {}
        class LhsEnum:
            def __init__(self, params, target):
                CLASSES['target'] = target
                raise Stop()
        class LhsEval:
            pass
        SET = dict(target_generator=lambda: g2, target_name='new name', postproc_funcs_filter=%(which)s, trunc_integer=%(trunc)s, hashtable_prec=0, prec=0, postproc_funcs=None,
                   postproc_funcs_text=['t0', 't1'], postproc_funcs_text_inverse={'t0': 't1'}, postproc_funcs_latex=['l0', 'l1'])
        def build(t, pairs, f, which, trunc, iters):
            for ab in pairs:
                try:
                    v = eval_dec_contfrac_by_polys(ab[0], ab[1], iters)
                except ZeroDivisionError:
                    continue
                if not isnormal(v):
                    continue
                for i in which:
                    x = f[i](v)
                    if isnormal(x):
                        k = key(x, trunc)
                        if (ab, i) not in t.get(k, []):
                            t.setdefault(k, []).append((ab, i))
        def code(pairs, more, f, g, acc1, acc2, p1, p2, s1, s2, t1, t2):
            m = MITM(target_generator=lambda: t1, target_name='old name', postproc_funcs_filter=(1,), trunc_integer=%(before)s, hashtable_prec=acc1, ab_poly_class=%(start)s, ab_poly_special_params=s1,
                     num_of_iterations=2, prec=p1, postproc_funcs=f)
            %(first)s
            m.filtered_params = [1, 2]
            m.redefine_settings(**dict(SET, target_generator=lambda: t2, hashtable_prec=acc2, prec=p2, postproc_funcs=g, ab_poly_class=%(cls)s, ab_poly_special_params=s2))
            out('clicks', m.get_filtered_params())
            out('precision', mp.dps)
            m.build_hashtable(more, 'more')
            out('enumerators', KW)
            out('table', list(m.dec_hashtable.items()))
            out('equations', (m.target_name, m.postproc_funcs_text, m.postproc_funcs_text_inverse, m.postproc_funcs_latex))
            try:
                m.find_clicks({'enum': LhsEnum, 'eval': LhsEval}, 'params')
            except Stop:
                pass
            out('target', CLASSES['target'])
        def spec(pairs, more, f, g, acc1, acc2, p1, p2, s1, s2, t1, t2):
            MITM(target_generator=lambda: mpf(1), ab_poly_class=Plain, prec=p1)
            t = DecimalHashTable(acc1)
            %(sfirst)s
            t.update_accuracy(acc2)
            MITM(target_generator=lambda: mpf(1), ab_poly_class=Plain, prec=p2)
            out('clicks', [])
            out('precision', p2)
            build(t, more, g, %(which)s, %(trunc)s, 2)
            old, new = %(start)s.kind, %(cls)s.kind
            out('enumerators', [(old, p1, 2, s1, True, True, True, False, None)] + %(used)s + ([(new, p2, 2, s2, True, True, True, False, None)] if new != old else []) + [(new, 'used', 'more')])
            out('table', list(t.items()))
            out('equations', ('new name', SET['postproc_funcs_text'], SET['postproc_funcs_text_inverse'], SET['postproc_funcs_latex']))
            out('target', t2)
'''

def run(ck):
    def pair(i):
        one = lambda n: mk_seq('tuple', [unit(mk_seq('tuple', [unit(sym('%s%d' % (n, i), 'num'))]))])
        return mk_seq('tuple', [unit(one('a')), unit(one('b'))])
    f, g = [mk_seq('list', [unit(sym('%s%d' % (n, i), 'fn')) for i in range(3)]) for n in 'fg']
    acc1, acc2 = sym('acc1', 'int'), sym('acc2', 'int')
    for start, cls in (('Old', 'New'), ('Old', 'Old'), ('New', 'Old')):
        for first in (True, False):
            for which, trunc, before in (('(0, 2)', 'True', 'True'), ('(1,)', 'False', 'True'), ('(1,)', 'True', 'True'), ('(1,)', 'True', 'False'), ('(2,)', 'False', 'False')):
                it = ck.interp()
                it.assume_mpf = True
                d = {'cls': cls, 'start': start, 'which': which, 'trunc': trunc, 'before': before, 'used': "[(old, 'used', 'pairs')]" if first else '[]',
                     'first': "m.build_hashtable(pairs, 'pairs')" if first else 'pass', 'sfirst': 'build(t, pairs, f, (1,), %s, 2)' % before if first else 'pass'}
                ck.same('%s to %s class, %s table, functions %s, truncation %s to %s' % (start, cls, 'a' if first else 'empty', which, before, trunc), it, SRC % d,
                        [mk_seq('list', [unit(pair(0))]), mk_seq('list', [unit(pair(1))]), f, g, acc1, acc2, sym('p1', 'int'), sym('p2', 'int'), sym('s1', '?'), sym('s2', '?'), sym('t1', 'num'), sym('t2', 'num')],
                        given=b_and(le(ONE, acc1), lt(acc1, acc2), b_not(eq(sym('a0', 'num'), sym('a1', 'num')))), rule='the new settings, and the table there is')
