"""C04: building the table stores every usable value of every enumerated continued fraction exactly once, under its fractional part."""
from engine.terms import *

MIN = 6

HEAD = '''
        from enum_params import MITM
        from cont_fracs import eval_dec_contfrac_by_polys
        from mpmath import mp, nstr, inf, mpf, isnormal
        from verif_out import out
        def key(x, trunc):
            x = abs(x)
            return x - int(x) if trunc else x
        def dig(k, n):
            return nstr(k, mp.dps, strip_zeros=False, min_fixed=-inf, max_fixed=inf)[:n + 2]
        class Enum:
            def __init__(self, **kw):
                self.pairs = []
            def polys_generator(self, range_a, range_b):
                return range_a, len(range_a)
        def mitm(f, which, trunc, acc, n=2):
            return MITM(target_generator=lambda: mpf(1), postproc_funcs=f, postproc_funcs_filter=which, trunc_integer=trunc, hashtable_prec=acc,
                        ab_poly_class=Enum, num_of_iterations=n)
'''
BUILD = HEAD + '''
        def code(pairs, more, f, acc, x):
            m = mitm(f, %(which)s, %(trunc)s, acc)
            %(ops)s
            out('table', list(m.dec_hashtable.items()))
        def build(t, pairs, f, which, acc):
            for ab in pairs:
                try:
                    v = eval_dec_contfrac_by_polys(ab[0], ab[1], 2)
                except ZeroDivisionError:
                    continue
                if not isnormal(v):
                    continue
                for i in which:
                    x = f[i](v)
                    if isnormal(x):
                        k = dig(key(x, %(trunc)s), acc)
                        if (ab, i) not in t.get(k, []):
                            t.setdefault(k, []).append((ab, i))
        def spec(pairs, more, f, acc, x):
            mitm(f, %(which)s, %(trunc)s, acc)
            t = {}
            %(spec)s
            out('table', list(t.items()))
'''
OPS = {'build': ('m.build_hashtable(pairs, None)', 'build(t, pairs, f, %(which)s, acc)'),
       'again': ('m.build_hashtable(pairs, None)', 'pass'),
       'again, unchecked': ('m.build_hashtable(pairs, None, validate_entry_doesnt_exist=False)', 'pass'),
       'parameters': ('m.dec_hashtable["parameters"] = {"target_name": x}', 't["parameters"] = {"target_name": x}'),
       'more': ('m.build_hashtable(more, None)', 'build(t, more, f, %(which)s, acc)'),
       'more, unchecked': ('m.build_hashtable(more, None, validate_entry_doesnt_exist=False)', 'build(t, more, f, %(which)s, acc)'),
       'both': ('m.build_hashtable(pairs + more, None)', 'build(t, pairs + more, f, %(which)s, acc)'),
       'both, new first': ('m.build_hashtable(more + pairs, None)', 'build(t, more + pairs, f, %(which)s, acc)'),
       'functions': ('m.postproc_funcs_filter = (0, 2)', 'pass'),
       'rebuild': ('m.build_hashtable(pairs, None)', 'build(t, pairs, f, (0, 2), acc)'),
       'reset': ('m.reset_hashtable()', 't = {}')}

def run(ck):
    acc = sym('acc', 'int')
    def pair(i):
        one = lambda n: mk_seq('tuple', [unit(mk_seq('tuple', [unit(sym('%s%d' % (n, i), 'num'))]))])
        return mk_seq('tuple', [unit(one('a')), unit(one('b'))])
    f = mk_seq('list', [unit(sym('f%d' % i, 'fn')) for i in range(3)])
    def go(n, m, which, trunc, ops, rule='table = every usable value of every pair, once, under its leading digits'):
        it = ck.interp()
        it.assume_mpf = True
        ind = '\n            '
        d = {'which': which, 'trunc': trunc}
        d['ops'], d['spec'] = ind.join(OPS[o][0] for o in ops), ind.join(OPS[o][1] for o in ops) % d
        ck.same('%s/%d pairs, functions %s, truncation %s' % (' '.join(ops), n, which, trunc), it, BUILD % d,
                [mk_seq('list', [unit(pair(i)) for i in range(n)]), mk_seq('list', [unit(pair(n + i)) for i in range(m)]), f, acc, sym('x', '?')],
                given=b_and(le(ONE, acc), *[b_not(eq(sym('a0', 'num'), sym('a%d' % i, 'num'))) for i in range(1, n + m) if m]), rule=rule)
    for which in ('(1,)', '(0, 2)'):
        for trunc in ('True', 'False'):
            for n in (0, 1, 2):
                go(n, 0, which, trunc, ['build'])
    rule = 'what is stored already is neither lost nor stored again'
    go(1, 1, '(1,)', 'True', ['build', 'more'], rule)
    go(1, 1, '(1,)', 'True', ['build', 'parameters', 'more'], rule)
    go(1, 1, '(1,)', 'True', ['build', 'parameters', 'more, unchecked'], rule)
    go(1, 0, '(0, 2)', 'True', ['build', 'again'], rule)
    go(1, 0, '(0, 2)', 'True', ['build', 'again, unchecked'], rule)
    go(2, 0, '(1,)', 'True', ['build', 'again'], rule)
    for which in ('(1,)', '(0, 2)'):
        go(1, 1, which, 'True', ['build', 'both'], rule)
    go(1, 1, '(1,)', 'False', ['build', 'both, new first'], rule)
    go(1, 0, '(0,)', 'True', ['build', 'functions', 'rebuild'], rule)
    go(1, 1, '(1,)', 'True', ['build', 'reset', 'more'], rule)
