"""C19: the convergence filters keep exactly the clicks whose continued fraction converges as required, and the convergence test is the ratio test of the errors."""
from engine.terms import *
from checks.c08 import seqs, nonempty

MIN = 20

HEAD = '''
        from enum_params import MITM
        from cont_fracs import ContFrac
        from mpmath import mpf
        from verif_out import out
        class Enum:
            def __init__(self, **kw):
                pass
        def mitm():
            return MITM(target_generator=lambda: mpf(1), ab_poly_class=Enum)
        def first(A, B):
            cf = ContFrac(A, B)
            cf.gen_iterations(0)
            return cf.get_p_q()[0]
'''
FAST = HEAD + '''
        def fake(self, *a, **k):
            self.gen_iterations(0)
            return good(self.get_p_q()[0]) > 0
        ContFrac.is_convergence_fast = fake
        def code(A, B, l, f, info, pr, good_):
            global good
            good = good_
            m = mitm()
            m.filtered_params = [((A[i], B[i]), l[i], f[i], info[i]) for i in range(%(n)d)]
            m.filter_only_exp_convergence(%(args)s)
            out('clicks', m.get_filtered_params())
        def spec(A, B, l, f, info, pr, good):
            mitm()
            out('clicks', [((A[i], B[i]), l[i], f[i], info[i]) for i in range(%(n)d) if good(first(A[i], B[i])) > 0])
'''
TYPE = HEAD + '''
        class Odd(Exception):
            pass
        NAMES = ['exp', 'super_exp', 'fast', 'undefined', 'mixed', 'poly2sympoly']
        def kind(k):
            for i in range(5):
                if k == i:
                    return NAMES[i]
            return NAMES[5]
        def fake(self, *a, **k):
            self.gen_iterations(0)
            x = self.get_p_q()[0]
            if x > good:
                raise %(exc)s
            self.set_approach_type_and_params((kind((x + which) %% 6), (x, par)))
        ContFrac.estimate_approach_type_and_params = fake
        def code(A, B, l, f, info, good_, which_, par_):
            global good, which, par
            good, which, par = good_, which_, par_
            m = mitm()
            m.filtered_params = [((A[i], B[i]), l[i], f[i], info[i]) for i in range(%(n)d)]
            bad = False
            try:
                m.filter_clicks_by_approach_type(%(args)s)
            except ValueError:
                bad = True
            out('refused', bad)
            out('clicks', None if bad else m.get_filtered_params())
        def spec(A, B, l, f, info, good, which, par):
            mitm()
            r = []
            for i in range(%(n)d):
                x = first(A[i], B[i])
                if x <= good and kind((x + which) %% 6) %(test)s:
                    r.append(((A[i], B[i]), l[i], f[i], (kind((x + which) %% 6), (x, par))))
            out('refused', %(bad)s)
            out('clicks', None if %(bad)s else r)
'''
RATIO = HEAD + '''
        class CF(ContFrac):
            def __init__(self, A, B, p, q):
                super().__init__(A, B)
                self.p, self.q, self.n, self.calls = p, q, None, []
            def gen_iterations(self, n, *a, **k):
                self.n = n
            def add_iterations(self, n, *a, **k):
                self.n += n
            def get_p_q(self):
                return self.p[self.n], self.q[self.n]
        def code(A, B, p, q, j):
            cf = CF(A, B, p, q)
            out('fast', bool(cf.is_convergence_fast(iters=%(iters)d, initial_cutoff=%(cut)d, iters_step=%(step)d)))
        def grows(p, q, n):
            before = abs(q[n + 4] * (p[n + 2] * q[n] - p[n] * q[n + 2]))
            after = abs(q[n] * (p[n + 4] * q[n + 2] - p[n + 2] * q[n + 4]))
            return before - after > after >> 4
        def spec(A, B, p, q, j):
            ContFrac(A, B)
            out('fast', all([grows(p, q, n) and grows(p, q, n + 1) for n in %(points)s]))
'''
REAL = HEAD + '''
        def code(A, B, k):
            cf = ContFrac(A, B, avoid_zero_b=False)
            %(pre)s
            r = cf.is_convergence_fast(iters=8, initial_cutoff=0, iters_step=8)
            out('fast', bool(r))
        def spec(A, B, k):
            cf = ContFrac(A, B, avoid_zero_b=False)
            p, q = [], []
            for n in range(6):
                cf.gen_iterations(n)
                x, y = cf.get_p_q()
                p.append(x)
                q.append(y)
            def grows(n):
                before = abs(q[n + 4] * (p[n + 2] * q[n] - p[n] * q[n + 2]))
                after = abs(q[n] * (p[n + 4] * q[n + 2] - p[n + 2] * q[n + 4]))
                return before - after > after >> 4
            out('fast', grows(0) and grows(1))
'''

def lst(pre, n, s):
    return mk_seq('list', [unit(x if not isinstance(s, str) else sym('%s%d' % (pre, i), s)) for i, x in enumerate([None] * n)])

def run(ck):
    for n in (0, 1, 2):
        A = mk_seq('list', [unit(seqs(1, 'a%d' % i)) for i in range(n)])
        B = mk_seq('list', [unit(seqs(1, 'b%d' % i)) for i in range(n)])
        g = nonempty(*[seqs(1, '%s%d' % (c, i)) for c in 'ab' for i in range(n)])
        com = [A, B] + [lst(c, n, s) for c, s in (('l', '?'), ('f', 'int'), ('info', '?'))]
        for args in ('', 'False'):
            ck.same('exponential only/%d clicks %s' % (n, args), ck.interp(), FAST % {'n': n, 'args': args}, com + [sym('pr', 'bool') if args else FALSE, sym('good', 'fn')], given=g,
                    rule='kept iff its own continued fraction passes the convergence test; unchanged, in order')
        for args, test, bad in (("whitelist=['exp', 'super_exp']", "in ['exp', 'super_exp']", 'False'), ('', "in ['exp', 'super_exp', 'fast']", 'False'),
                                ("whitelist=['poly2sympoly']", "== 'poly2sympoly'", 'False'), ("whitelist=['super_exp']", "== 'super_exp'", 'False'), ("blacklist=['super_exp'], whitelist=None", "!= 'super_exp'", 'False'), ("None, ['undefined', 'mixed']", "not in ['undefined', 'mixed']", 'False'),
                                ("whitelist=[], blacklist=['exp']", "!= 'exp'", 'False'), ("None", "in []", 'True'), ("whitelist=[], blacklist=[]", "in []", 'True'),
                                ("['exp'], ['mixed']", "in []", 'True'), ("blacklist=['mixed']", "in []", 'True')):
            for exc in ('ValueError()', 'Odd()') if n == 1 else ('ZeroDivisionError()',):
                ck.same('approach type/%d clicks (%s) %s' % (n, args, exc), ck.interp(), TYPE % {'n': n, 'args': args, 'test': test, 'bad': bad, 'exc': exc}, com + [sym('good', 'int'), sym('which', 'int'), sym('par', '?')], given=g,
                        rule='kept iff estimation succeeds with a type in the whitelist or not in the blacklist; convergence information attached')
    a, b = seqs(1, 'a'), seqs(1, 'b')
    for cut, step, iters in ((0, 6, 6), (2, 6, 8), (1, 6, 6), (0, 7, 14), (3, 6, 20)):
        points = [cut + step * i for i in range(len(range(cut + step, iters + 1, step)))]
        m = iters + 8
        p, q = (mk_seq('list', [unit(sym('%s%d' % (c, i), 'int')) for i in range(m)]) for c in 'pq')
        ck.same('ratio test/cutoff %d, step %d, %d iterations' % (cut, step, iters), ck.interp(), RATIO % {'iters': iters, 'cut': cut, 'step': step, 'points': points},
                [a, b, p, q, sym('j', 'int')], given=nonempty(a, b),
                rule='fast iff at every checked depth the error between convergents two apart shrinks by more than 17/16, for even and odd convergents')
