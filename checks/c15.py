"""C15: the ULCD enumerator yields exactly the legal (u, l, c, d) of the given ranges, each with its value, in order."""
from engine.terms import *

MIN = 8

SRC = '''
        from lhs_evaluators import ULCDEnumerator, ULCDEvaluator
        from mpmath import mpf
        from verif_out import out
        def values(r, least):
            if isinstance(r, int):
                return range(-r if least is None else least, r + 1)
            if len(r) == 2:
                return range(r[0], r[1])
            if len(r) == 3:
                return range(r[0], r[1], r[2])
            return r
        def code(u, l, c, d, T):
            e = ULCDEnumerator((u, l, c, d), T)
            r = []
            for x in e.generator():
                y = ULCDEvaluator(x)
                r.append((x.get_params(), x.get_val(), y.get_params(), y.get_val()))
            out('enumerated', r)
            %(again)s
        def spec(u, l, c, d, T):
            r = []
            for a in values(u, None):
                for b in values(l, None):
                    for e in values(c, None):
                        for f in values(d, 1):
                            if b != 0 and f != 0 and abs(e) < abs(f):
                                p = (a, b, e, f)
                                v = (a / T + T / b + e) / f
                                r.append((p, v, p, v))
            out('enumerated', r)
            %(again2)s
'''

def lst(*x):
    return mk_seq('list', [unit(e) for e in x])
def two(n):
    return lst(sym(n, 'int'), add(sym(n, 'int'), K(2)))
def one(n):
    return lst(sym(n, 'int'), add(sym(n, 'int'), K(1)))
def opt(n, k):
    return lst(*[sym(n + str(i), 'int') for i in range(k)])

FORMS = {
    'single values': (one('u'), one('l'), one('c'), one('d')),
    'two values of u, l': (two('u'), two('l'), one('c'), one('d')),
    'two values of c, d': (one('u'), one('l'), two('c'), two('d')),
    'symmetric u': (ONE, one('l'), one('c'), one('d')),
    'symmetric l': (one('u'), ONE, one('c'), one('d')),
    'symmetric c': (one('u'), one('l'), ONE, one('d')),
    'd from 1': (one('u'), one('l'), one('c'), K(2)),
    'steps': (lst(sym('u', 'int'), add(sym('u', 'int'), K(5)), K(3)), one('l'), lst(sym('c', 'int'), add(sym('c', 'int'), K(4)), K(2)), one('d')),
    'steps l, d': (one('u'), lst(sym('l', 'int'), add(sym('l', 'int'), K(5)), K(3)), one('c'), lst(sym('d', 'int'), add(sym('d', 'int'), K(4)), K(2))),
    'options': (opt('u', 4), opt('l', 1), opt('c', 1), opt('d', 1)),
    'options l, d': (opt('u', 1), opt('l', 4), opt('c', 1), opt('d', 4)),
    'options c': (opt('u', 1), opt('l', 1), opt('c', 4), opt('d', 1)),
    'any range of u': (lst(sym('u', 'int'), sym('v', 'int')), one('l'), one('c'), one('d')),
    'any symmetric u': (sym('n', 'int'), one('l'), one('c'), one('d')),
    'any d': (one('u'), one('l'), one('c'), sym('n', 'int')),
    'concrete': (K(1), K(2), K(1), K(2)),
}

def run(ck):
    for name, rs in FORMS.items():
        for again in (False, True):
            if again and name not in ('single values', 'two values of u, l'):
                continue
            src = SRC % {'again': "out('again', [x.get_params() for x in e.generator()])" if again else 'pass',
                         'again2': "out('again', [x[0] for x in r])" if again else 'pass'}
            it = ck.interp()
            it.assume_mpf = True
            ck.same('ulcd/%s%s' % (name, ', twice' if again else ''), it, src, list(rs) + [sym('T', 'num')],
                    rule='enumeration = product of the ranges without l = 0, d = 0 and |c| >= |d|; value = formula')
