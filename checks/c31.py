"""C31: sequences that converge exactly as a rate says are reported with that rate."""
from engine.terms import *

MIN = 20

HEAD = '''
        import cont_fracs, mpmath
        from cont_fracs import ContFrac
        from mpmath import mp, mpf
        from verif_out import out, stub
        stub('mpmath.isnan', lambda x: False)
        mp.dps = 20
        class Seq(ContFrac):
            def __init__(self, value):
                super().__init__([1], [1])
                self.value, self.n, self.stale = value, 0, 0
            def gen_iterations(self, num_of_iters, exec_finalize=True):
                self.n, self.stale = num_of_iters, 0
            def add_iterations(self, num_of_iters, exec_finalize=True):
                self.n += num_of_iters
                if num_of_iters < 0:
                    self.stale = self.stale - num_of_iters
            def get_result(self):
                return self.value(self.n) if self.stale == 0 else self.value(self.n + 3 * self.stale)
        def parts(c, d, p, q):
            return lambda n: c * p ** n if n %% 2 == 0 else d * q ** n
'''
SRC = HEAD + '''
        def code(L, c, d):
            part = %(seq)s
            f = Seq(lambda n: L + part(n))
            f.estimate_approach_type_and_params(%(call)s)
            found = f.get_approach_type_and_params()
            out('type', found[0])
            out('parameters', %(what)s)
        def spec(L, c, d):
            out('type', %(type)r)
            out('parameters', %(params)s)
'''
POLY = HEAD + '''
        def code(L, c, d, lg, fit):
            stub('math.log', lambda x: lg(x))
            stub('scipy.stats.linregress', lambda xs, ys: (fit('slope', list(xs), list(ys)), fit('intercept', list(xs), list(ys)), fit('r', list(xs), list(ys)), fit('p', list(xs), list(ys)), fit('err', list(xs), list(ys))))
            part = %(seq)s
            f = Seq(lambda n: L + part(n))
            f.estimate_approach_type_and_params(iters=%(iters)d, initial_cutoff=%(start)d, iters_step=%(step)d)
            out('found', f.get_approach_type_and_params())
        def spec(L, c, d, lg, fit):
            part = %(seq)s
            def points(k):
                at = [n + k for i in range(%(start)d, %(iters)d + 1, %(step)d) for n in (i, i + 2)]
                return [lg(n) for n in at], [lg(abs(part(n + 2) - part(n))) for n in at]
            e, o = points(0), points(1)
            out('found', ('poly2sympoly', (min(abs(fit('slope', *e)), abs(fit('slope', *o))) - 1, min(fit('intercept', *e), fit('intercept', *o)), min(fit('r', *e) ** 2, fit('r', *o) ** 2))))
'''

def run(ck):
    L, c, d, lg, fit = [sym(n, 'num') for n in 'Lcd'] + [sym('lg', 'fn'), sym('fit', 'fn')]
    given = b_and(lt(ZERO, c), le(ONE, d))

    def case(name, seq, call, type, params, what='found[1]', rule='the rate and scale of a geometric sequence'):
        it = ck.interp()
        it.assume_mpf = True
        ck.same(name, it, SRC % {'seq': seq, 'call': call, 'type': type, 'params': params, 'what': what}, [L, c, d], given=given, rule=rule)

    for start, step in ((4, 6), (5, 6), (3, 8), (6, 4), (1, 2)):
        for rate in ('2, 3', '-3, 5', '17, 18'):
            r = 'mpf(%s) / %s' % tuple(rate.split(', '))
            case('geometric at rate %s from %d by %d' % (rate.replace(', ', '/'), start, step), 'parts(c, d, %s, %s)' % (r, r), 'iters=%d, initial_cutoff=%d, iters_step=%d' % (start + 6 * step, start, step),
                 'exp', '(1 / abs(%s), min(abs(c), abs(d)))' % r)
    for start, step in ((2, 5), (4, 3), (7, 1)):
        case('geometric from %d by %d' % (start, step), 'parts(c, c, mpf(2) / 3, mpf(2) / 3)', 'iters=%d, initial_cutoff=%d, iters_step=%d' % (start + 6 * step, start, step), 'exp', '(mpf(3) / 2, abs(c))')
    call = 'iters=46, initial_cutoff=4, iters_step=6'
    case('two rates', 'parts(c, d, mpf(2) / 3, mpf(3) / 5)', call, 'exp', 'mpf(3) / 2', 'found[1][0]', 'the slower of two rates')
    case('two rates, the other way', 'parts(c, d, mpf(3) / 7, mpf(-3) / 5)', call, 'exp', 'mpf(5) / 3', 'found[1][0]', 'the slower of two rates')
    case('one slow part', 'parts(c, d, mpf(2) / 3, mpf(24) / 25)', call, 'mixed', '0', rule='one exponential part, one slower')
    case('other slow part', 'parts(c, d, mpf(24) / 25, mpf(2) / 3)', call, 'mixed', '0', rule='one exponential part, one slower')
    case('one settled part', '(lambda n: c if n % 2 == 0 else d * (mpf(2) / 3) ** n)', call, 'undefined', '0', rule='one part settled, the other not')
    case('other settled part', '(lambda n: c if n % 2 else d * (mpf(2) / 3) ** n)', call, 'undefined', '0', rule='one part settled, the other not')
    case('one settled part, odd cutoff', '(lambda n: c if n % 2 == 0 else d * (mpf(2) / 3) ** n)', 'iters=47, initial_cutoff=5, iters_step=6', 'undefined', '0', rule='one part settled, the other not')
    case('two points', 'parts(c, d, mpf(2) / 3, mpf(2) / 3)', 'iters=10, initial_cutoff=4, iters_step=6', 'undefined', '0', rule='too few points')
    case('settled', '(lambda n: c if n > 3 else d)', call, 'fast', '0', rule='settled whatever the cutoff')
    case('settled, default cutoffs', '(lambda n: 0)', '', 'fast', '0', rule='settled whatever the cutoff')
    case('settling after 61 terms', '(lambda n: parts(c, d, mpf(2) / 3, mpf(2) / 3)(n) if n < 61 else 0)', '', 'exp', '(mpf(3) / 2, min(abs(c), abs(d)))', rule='a sequence too fast for a cutoff is looked at from an earlier one')
    case('ever faster', '(lambda n: c * (mpf(2) / 3) ** (n * n // 6))', call, 'super_exp', '0', '0', 'ratios that grow')
    case('one part ever faster', '(lambda n: c * (mpf(2) / 3) ** (n * n // 6) if n % 2 == 0 else d * (mpf(2) / 3) ** n)', call, 'super_exp', '0', '0', 'ratios that grow')
    case('other part ever faster', '(lambda n: c * (mpf(2) / 3) ** (n * n // 6) if n % 2 else d * (mpf(2) / 3) ** n)', call, 'super_exp', '0', '0', 'ratios that grow')
    case('slowing down', '(lambda n: c * ((mpf(24) / 25) ** n + 10 ** 12 * (mpf(1) / 100) ** n))', call, 'undefined', '0', rule='ratios that fall below an exponential one')
    for start, step in ((4, 6), (3, 8)):
        for seq in ('parts(c, d, mpf(24) / 25, mpf(24) / 25)', 'parts(c, d, mpf(24) / 25, mpf(-22) / 23)'):
            it = ck.interp()
            it.assume_mpf = True
            ck.same('slow %s from %d by %d' % (seq[12:], start, step), it, POLY % {'seq': seq, 'start': start, 'step': step, 'iters': start + 6 * step}, [L, c, d, lg, fit], given=given, rule='the line fitted to the logarithms of the differences')
