"""C13: polynomial pairs are skipped for an integer root exactly when a numerator polynomial of degree up to two has a non-zero integer root or is zero."""
from engine.terms import *
from checks.c11 import HEAD, ranges

MIN = 6

SRC = HEAD + '''
        def has_root(p):
            # powers of x are factored out: the root 0 is never used
            q = list(p)
            while q and q[0] == 0:
                q = q[1:]
            while q and q[-1] == 0:
                q = q[:-1]
            if not q:
                return True
            if len(q) == 2:
                return isint(q[0] / q[1])
            if len(q) == 3:
                d = q[1] ** 2 - 4 * q[0] * q[2]
                if d < 0:
                    return False
                return isint((d ** 0.5 - q[1]) / (2 * q[2])) or isint((-d ** 0.5 - q[1]) / (2 * q[2]))
            return False
        def code(ra, rb):
            e = BasicEnumPolyParams(avoid_int_roots=True, should_gen_contfrac=False, enum_only_exp_conv=False)
            g, n = e.polys_generator(ra, rb)
            out('pairs', list(g))
        def spec(ra, rb):
            BasicEnumPolyParams()
            r = []
            for pa in choices(ra):
                for pb in choices(rb):
                    if not any([has_root(p) for p in pb]):
                        r.append((squeeze(pa), squeeze(pb)))
            out('pairs', r)
'''
FILTER = '''
        from enum_params import MITM
        from verif_out import out, stub
        class Real:
            def __init__(self, v):
                self.v = v
            def round(self):
                return Real(nint(self.v))
            def __sub__(self, o):
                return self.v - o.v
            def __gt__(self, x):
                return self.v > x
        from mpmath import nint, mpf
        class Enum:
            def __init__(self, **kw):
                pass
        class Root:
            def __init__(self, re, im):
                self.real, self.imag = Real(re), im
        def code(b, re, im, keep):
            def roots(p):
                return [Root(re(i, tuple(p)), im(i, tuple(p))) for i in range(len(p) - 1)]
            stub('numpy.roots', roots)
            m = MITM(target_generator=lambda: mpf(1), ab_poly_class=Enum)
            m.filtered_params = [(('a', ps), 'l', 0, None) for ps in b] + keep
            m.filter_pos_integer_roots_numerators()
            out('clicks', m.get_filtered_params())
        def spec(b, re, im, keep):
            MITM(target_generator=lambda: mpf(1), ab_poly_class=Enum)
            r = []
            for ps in b:
                roots = [(re(i, tuple(p[::-1])), im(i, tuple(p[::-1]))) for p in ps for i in range(len(p) - 1)]
                if not any([abs(y) < 0.001 and abs(x - nint(x)) < 0.001 and x > 0.001 for x, y in roots]):
                    r.append((('a', ps), 'l', 0, None))
            out('clicks', r + keep)
'''

def run(ck):
    for sa, sb, n in (((1,), (1,), 1), ((1,), (2,), 1), ((1,), (3,), 1), ((1,), (4,), 1), ((1,), (2, 1), 1), ((1,), (2, 2), 1), ((1, 1), (2,), 1),
                      ((1,), (2,), 2)):
        ck.same('enumeration/a %s, b %s, %d values' % (sa, sb, n), ck.interp(), SRC, [ranges('a', sa, n), ranges('b', sb, n)],
                rule='a pair is dropped iff some b polynomial is zero or has a non-zero integer root (degree <= 2)')
    def poly(n, k):
        return mk_seq('tuple', [unit(sym('%s%d' % (n, i), 'int')) for i in range(k)])
    tup = lambda *x: mk_seq('tuple', [unit(e) for e in x])
    lst = lambda *x: mk_seq('list', [unit(e) for e in x])
    none = lst()
    for name, b in (('one click', lst(tup(poly('b', 2)))), ('degree two', lst(tup(poly('b', 3)))), ('interlaced', lst(tup(poly('b', 2), poly('c', 3)))),
                    ('constant', lst(tup(poly('b', 1)))), ('two clicks', lst(tup(poly('b', 2)), tup(poly('c', 3))))):
        ck.same('filter/' + name, ck.interp(), FILTER, [b, sym('re', 'fn'), sym('im', 'fn'), none], rule='a click is dropped iff some numerator has a (numerically) positive integer root')
