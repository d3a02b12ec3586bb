"""C16: the rational-function enumerator yields exactly the usable non-constant quotients of the coefficient ranges, each with its value, in order."""
from engine.terms import *
from checks.c15 import one, two, lst

MIN = 8

SRC = '''
        from lhs_evaluators import RationalFuncEnumerator, RationalFuncEvaluator
        from mpmath import mpf, isnormal
        from verif_out import out
        def tuples(rs):
            r = [()]
            for x in rs:
                r = [p + (v,) for p in r for v in range(x[0], x[1])]
            return r
        def size(p):
            n = 0
            for i, c in enumerate(p):
                if c != 0:
                    n = i + 1
            return n
        def value(p, T):
            return sum([c * T ** i for i, c in enumerate(p)])
        def code(ps, qs, force, T):
            e = RationalFuncEnumerator((ps, qs, force), T)
            r = []
            for x in e.generator():
                r.append((x.get_params(), x.get_val()))
            out('enumerated', r)
            %(again)s
        def spec(ps, qs, force, T):
            r = []
            for p in tuples(ps):
                for q in tuples(qs):
                    if size(p) == 0 or size(q) == 0 or size(p) < 2 and size(q) < 2:
                        continue
                    if force and size(p) < size(q):
                        continue
                    if isnormal(value(p, T)) and isnormal(value(q, T)):
                        r.append(((p, q, 0), value(p, T) / value(q, T)))
            out('enumerated', r)
            %(again2)s
'''

def run(ck):
    def rs(n, f, k=1):
        return lst(*[f(n + str(i)) for i in range(k)])
    anyr = lambda n: lst(sym(n, 'int'), sym(n + '_', 'int'))
    for name, ps, qs in (('linear over constant', rs('p', one, 2), rs('q', one, 1)), ('constant over linear', rs('p', one, 1), rs('q', one, 2)),
                         ('linear over linear', rs('p', one, 2), rs('q', one, 2)), ('quadratic over linear', rs('p', one, 3), rs('q', one, 2)),
                         ('linear over quadratic', rs('p', one, 2), rs('q', one, 3)), ('quadratic over quadratic', rs('p', one, 3), rs('q', one, 3)),
                         ('two values, numerator', lst(two('p0'), one('p1')), rs('q', one, 1)),
                         ('two values, denominator', rs('p', one, 1), lst(two('q0'), one('q1'))),
                         ('two values each', lst(one('p0'), two('p1')), rs('q', two, 1)),
                         ('any range of p1', lst(one('p0'), anyr('p1')), rs('q', one, 1))):
        for force in (FALSE, TRUE):
            for again in (False, True) if name == 'linear over constant' else (False,):
                src = SRC % {'again': "out('again', [x.get_params() for x in e.generator()])" if again else 'pass',
                             'again2': "out('again', [x[0] for x in r])" if again else 'pass'}
                it = ck.interp()
                it.assume_mpf = True
                ck.same('rational/%s%s%s' % (name, ', bigger numerator' if force is TRUE else '', ', twice' if again else ''), it, src,
                        [ps, qs, force, sym('T', 'num')],
                        rule='enumeration = product of the ranges without zero, constant and undefined quotients; value = quotient')
