"""C23: every post-processing function is the function its name says, at the index the stored tables use, and its paired inverse is its reciprocal."""
from engine.terms import *

MIN = 40

# name used in configuration files, table index = position; value on reals
REG = [('lambda x: x', 'x'), ('safe_inverse', 'inv(x)'),
       ('lambda x: x**2', 'x*x'), ('lambda x: safe_inverse(x**2)', 'inv(x*x)'),
       ('lambda x: x**3', 'x*x*x'), ('lambda x: safe_inverse(x**3)', 'inv(x*x*x)'),
       ('lambda x: x**4', 'x*x*x*x'), ('lambda x: safe_inverse(x**4)', 'inv(x*x*x*x)'),
       ('lambda x: x**5', 'x*x*x*x*x'), ('lambda x: safe_inverse(x**5)', 'inv(x*x*x*x*x)'),
       ('safe_sqrt', 'root(x)'), ('lambda x: safe_inverse(safe_sqrt(x))', 'inv(root(x))'),
       ('lambda x: dec_sin(x)', 'mpmath.sin(x)'), ('lambda x: safe_inverse(dec_sin(x))', 'inv(mpmath.sin(x))'),
       ('lambda x: dec_cos(x)', 'mpmath.cos(x)'), ('lambda x: safe_inverse(dec_cos(x))', 'inv(mpmath.cos(x))'),
       ('lambda x: dec_tan(x)', 'tan(x)'), ('lambda x: safe_inverse(dec_tan(x))', 'inv(tan(x))'),
       ('lambda x: dec_cot(x)', 'cot(x)'), ('lambda x: safe_inverse(dec_cot(x))', 'inv(cot(x))'),
       ('lambda x: dec_exp(x)', 'mpmath.exp(x)'), ('lambda x: safe_inverse(dec_exp(x))', 'inv(mpmath.exp(x))'),
       ('lambda x: dec_ln(x)', 'ln(x)'), ('lambda x: safe_inverse(dec_ln(x))', 'inv(ln(x))')]

HEAD = '''
        import mpmath
        import postprocfuncs as P
        from mpmath import mpf, mp
        from verif_out import out, stub
        def inv(x):
            return mpf('inf') if x == 0 else 1/x
        def root(x):
            return mpf('nan') if x < 0 else mpmath.sqrt(x)
        def tan(x):
            return mpmath.sin(x) * inv(mpmath.cos(x))
        def cot(x):
            return mpmath.cos(x) * inv(mpmath.sin(x))
        def ln(x):
            return mpf('nan') if x <= 0 else mpmath.log(x)
        P.dec_sin = mpmath.sin
        P.dec_cos = mpmath.cos
'''
FUNC = HEAD + '''
        def code(x):
            f = P.EVALUATED_POSTPROC_FUNCS[%(idx)s]
            out('value', f(x))
            out('again', f(x))
            out('precision', mp.dps)
        def spec(x):
            r = %(value)s
            out('value', r)
            out('again', r)
            out('precision', mp.dps)
'''
NAMES = HEAD + '''
        def code():
            out('names', list(P.POSTPROC_FUNCS))
            out('count', len(P.EVALUATED_POSTPROC_FUNCS))
            out('latex', sorted(P.POSTPROC_FUNCS_LATEX.keys()))
        def spec():
            out('names', %(names)r)
            out('count', %(n)d)
            out('latex', sorted(%(names)r))
'''
PAIRS = HEAD + '''
        def code():
            p = [tuple(x) for x in P.INVERSE_POSTPROC_PAIRS]
            out('inverse pairs', [(i, j) for i in range(%(n)d) for j in range(%(n)d) if (i, j) in p])
            out('only those', [x for x in p if x[0] not in range(%(n)d) or x[1] not in range(%(n)d)])
        def spec():
            out('inverse pairs', [(i, i + 1 if i %% 2 == 0 else i - 1) for i in range(%(n)d)])
            out('only those', [])
'''
RECIP = HEAD + '''
        def code(x):
            a, b = P.EVALUATED_POSTPROC_FUNCS[%(i)d](x), P.EVALUATED_POSTPROC_FUNCS[%(j)d](x)
            out('product', a * b)
        def spec(x):
            out('product', mpf(1))
'''
# truncated power series with rational coefficients: x |-> the series of the variable; the Taylor loop stops when terms vanish
SERIES = '''
        import postprocfuncs as P
        from mpmath import mpf, mp
        from verif_out import out
        N = %(n)d
        class Series:
            def __init__(self, c):
                self.c = c
            def of(y):
                return y if isinstance(y, Series) else Series([y] + [0] * (N - 1))
            def __add__(self, y):
                return Series([a + b for a, b in zip(self.c, Series.of(y).c)])
            __radd__ = __add__
            def __neg__(self):
                return Series([-a for a in self.c])
            def __pos__(self):
                return self
            def __sub__(self, y):
                return self + (-Series.of(y))
            def __rsub__(self, y):
                return Series.of(y) + (-self)
            def __mul__(self, y):
                d = Series.of(y).c
                return Series([sum([self.c[i] * d[k - i] for i in range(k + 1)]) for k in range(N)])
            __rmul__ = __mul__
            def __truediv__(self, y):
                return Series([mpf(a) / y for a in self.c])
            def __pow__(self, k):
                r = Series.of(1)
                for _ in range(k):
                    r = r * self
                return r
            def __eq__(self, y):
                return self.c == Series.of(y).c
            def __ne__(self, y):
                return not self == y
            def sign(self):
                lead = [a for a in self.c if a != 0]
                return 0 if not lead else 1 if lead[0] > 0 else -1
            def __abs__(self):
                return -self if self.sign() < 0 else self
            def __bool__(self):
                return self.sign() != 0
            def __lt__(self, y):
                return (self - y).sign() < 0
            def __gt__(self, y):
                return (self - y).sign() > 0
            def __le__(self, y):
                return (self - y).sign() <= 0
            def __ge__(self, y):
                return (self - y).sign() >= 0
        def code():
            d = mp.dps
            r = P.%(fn)s(Series([0, 1] + [0] * (N - 2)))
            out('coefficients', r.c)
            out('precision restored', mp.dps == d)
        def spec():
            c, f = [], 1
            for k in range(N):
                f = f * k if k else 1
                c.append(mpf((-1)**(k // 2)) / f if k %% 2 == %(par)d else 0)
            out('coefficients', c)
            out('precision restored', True)
'''

# the summation goes on while the terms of the series change the sum: no stop at an argument the series is not zero at
GOES = '''
        import postprocfuncs as P
        from verif_out import out
        N = %(n)d
        class Enough(Exception):
            pass
        class Value:
            terms = [0]
            def __init__(self, v):
                self.v = v
            def of(y):
                return y.v if isinstance(y, Value) else y
            def __add__(self, y):
                return Value(self.v + Value.of(y))
            __radd__ = __add__
            def __neg__(self):
                return Value(-self.v)
            def __pos__(self):
                return self
            def __abs__(self):
                return Value(abs(self.v))
            def __sub__(self, y):
                return Value(self.v - Value.of(y))
            def __rsub__(self, y):
                return Value(Value.of(y) - self.v)
            def __mul__(self, y):
                return Value(self.v * Value.of(y))
            __rmul__ = __mul__
            def __truediv__(self, y):
                Value.terms[0] += 1
                if Value.terms[0] > N:
                    raise Enough()
                return Value(self.v / Value.of(y))
            def __pow__(self, k):
                return Value(self.v ** k)
            def __eq__(self, y):
                return self.v == Value.of(y)
            def __ne__(self, y):
                return self.v != Value.of(y)
            def __lt__(self, y):
                return self.v < Value.of(y)
            def __gt__(self, y):
                return self.v > Value.of(y)
            def __le__(self, y):
                return self.v <= Value.of(y)
            def __ge__(self, y):
                return self.v >= Value.of(y)
            def __bool__(self):
                return self.v != 0
        def code(x):
            try:
                P.%(fn)s(Value(x))
                out('stops', True)
            except Enough:
                out('stops', False)
        def spec(x):
            out('stops', False)
'''

def run(ck):
    n = len(REG)
    x = sym('x', 'num')
    names = [t for t, _ in REG]
    ck.same('registry/names', ck.interp(), NAMES % {'names': names, 'n': n}, rule='every documented name, in the order stored tables index them')
    ck.same('registry/inverse pairs', ck.interp(), PAIRS % {'n': n}, rule='f paired with the function following it, and with no other')
    for j, (text, value) in enumerate(REG):
        for by, idx in (('name', 'P.POSTPROC_FUNCS.index(%r)' % text), ('index', str(j))):
            it = ck.interp()
            it.assume_mpf = True
            ck.same('value/%s by %s' % (text, by), it, FUNC % {'idx': idx, 'value': value}, [x], rule='the function its name says')
    for fn, par in (('dec_cos', 0), ('dec_sin', 1)):
        for N in (6, 12, 13, 20):
            ck.same('Taylor/%s to order %d' % (fn, N - 1), ck.interp(), SERIES % {'n': N, 'fn': fn, 'par': par}, rule='coefficients of the power series of the function; working precision restored')
        for sg, cond in (('> 0', lt(ZERO, x)), ('< 0', lt(x, ZERO))):
            ck.same('Taylor/%s, argument %s, summation goes on' % (fn, sg), ck.interp(), GOES % {'n': 3, 'fn': fn}, [x], given=cond, rule='no stop while the next term is not zero')
