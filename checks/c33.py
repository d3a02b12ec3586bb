"""C33: the small tools do what they say."""
from engine.terms import *

MIN = 15

CLOCK = '''
        import utils, time
        from utils import MeasureRuntime, MathOperations, grouper
        from verif_out import out, stub
        CALLS = []
        def code(t):
            def now():
                CALLS.append(1)
                return t[len(CALLS) - 1]
            stub('time.time', now)
            m = MeasureRuntime()
            out('before', m.is_started())
            m.start_measure()
            out('started', m.is_started())
            r = []
            %(calls)s
            out('measured', r)
            out('clock read', len(CALLS))
        def spec(t):
            out('before', False)
            out('started', True)
            out('measured', %(result)s)
            out('clock read', %(read)d)
'''
# (statements, expected list, clock readings)
MEASURES = [
    ('r.append(m.measure_time())', '[t[1] - t[0]]', 2),
    ('r += [m.measure_time(), m.measure_time()]', '[t[1] - t[0], t[2] - t[1]]', 3),
    ('r += [m.measure_time() for i in range(5)]', '[t[i + 1] - t[i] for i in range(5)]', 6),
    ('r += [m.measure_time(), m.get_last_measured_time(), m.get_last_measured_time()]', '[t[1] - t[0]] * 3', 2),
    ('r += [m.measure_time(), m.get_last_measured_time(), m.measure_time(), m.get_last_measured_time()]', '[t[1] - t[0]] * 2 + [t[2] - t[1]] * 2', 3),
    ('r += [m.measure_time(), m.get_total_runtime(), m.measure_time(), m.get_total_runtime()]', '[t[1] - t[0], t[2] - t[0], t[3] - t[1], t[4] - t[0]]', 5),
    ('m.start_measure(); r += [m.measure_time(), m.is_started()]', '[t[1] - t[0], True]', 2),
    ('r.append(m.measure_time()); m.start_measure(); r += [m.measure_time(), m.get_total_runtime()]', '[t[1] - t[0], t[2] - t[1], t[3] - t[0]]', 4),
]

CHUNKS = CLOCK[:CLOCK.index('        CALLS')] + '''
        def code(x, f):
            out('chunks', [list(c) for c in grouper(%(seq)s, %(n)d%(fill)s)])
        def spec(x, f):
            items = list(%(seq)s)
            while len(items) %% %(n)d:
                items.append(%(with_)s)
            out('chunks', [items[i:i + %(n)d] for i in range(0, len(items), %(n)d)])
'''

TEX = '''
        import latex
        from verif_out import out, stub
        SAVED, ORDER = [], []
        class Env:
            def __init__(self, kind, *a, **k):
                self.kind, self.text = kind, []
                self.options = (k.get('numbering', True), k.get('escape', True))
            def append(self, x):
                self.text.append(x)
            def __enter__(self):
                return self
            def __exit__(self, *a):
                return False
        class Created:
            def __init__(self, doc, env):
                self.doc, self.env = doc, env
            def __enter__(self):
                self.outer = self.doc.inner
                self.doc.inner = self.env
                return self.env
            def __exit__(self, *a):
                self.doc.inner = self.outer
                if self.env.kind == 'Alignat':
                    self.doc.parts.append((self.env.kind, self.env.text, self.env.options))
                return False
        class Doc:
            def __init__(self, *a, **k):
                self.parts, self.inner = [], None
            def create(self, env):
                return Created(self, env)
            def append(self, x):
                if self.inner is not None:
                    self.inner.append(x)
            def generate_pdf(self, filename, clean_tex=True, **k):
                SAVED.append((filename, clean_tex, self.parts))
        latex.Document = Doc
        latex.Section = lambda *a, **k: Env('Section', *a, **k)
        latex.Alignat = lambda *a, **k: Env('Alignat', *a, **k)
        def code(filename, e):
            eqns = %(eqns)s
            before = list(eqns)
            latex.generate_latex(filename, eqns)
            out('saved', SAVED)
            out('equations', eqns == before)
        def spec(filename, e):
            out('saved', [(filename, False, [('Alignat', [x], (False, False)) for x in %(eqns)s])])
            out('equations', True)
'''

RUNS = '''
        import run_distributed_configs, os
        from verif_out import out, stub
        RAN = []
        def code(folder):
            stub('os.listdir', lambda d='.': %(files)r if d == folder else ['other.ini'])
            stub('os.system', lambda c: RAN.append(c))
            run_distributed_configs.main(folder)
            out('runs', len(RAN))
            out('configurations', [c.split(' ')[-1] for c in RAN])
            out('program', ['main.py' in c.split(' ') for c in RAN])
        def spec(folder):
            inis = [f for f in %(files)r if f.endswith('.ini')]
            out('runs', len(inis))
            out('configurations', [os.path.join(folder, f) for f in inis])
            out('program', [True for f in inis])
'''

PREC = '''
        import enum_poly_params
        from enum_poly_params import BasicEnumPolyParams, AB_POLYS_TYPES
        from mpmath import mp
        from verif_out import out
        def code(p, q, r):
            e = AB_POLYS_TYPES[%(kind)r](prec=p, special_params=(3, 3))
            out('start', mp.dps)
            mp.dps = q
            e.reset_precision()
            out('again', mp.dps)
            AB_POLYS_TYPES[%(kind)r](prec=r, special_params=(3, 3))
            e.reset_precision()
            out('its own', mp.dps)
            enum_poly_params.set_precision(q)
            out('set', mp.dps)
            e.good_params.append(1)
            e.reinitialize_good_params()
            out('good', (e.good_params, AB_POLYS_TYPES[%(kind)r](special_params=(3, 3)).good_params))
        def spec(p, q, r):
            out('start', p)
            out('again', p)
            out('its own', p)
            out('set', q)
            out('good', ([], []))
'''

POLY = CLOCK[:CLOCK.index('        CALLS')] + '''
        def code(c, x):
            before = list(c)
            out('value', MathOperations.subs_in_polynom(c, x))
            out('coefficients', c == before)
        def spec(c, x):
            v = 0
            for a in reversed(c):
                v = v * x + a
            out('value', v)
            out('coefficients', True)
'''
GCD = CLOCK[:CLOCK.index('        CALLS')] + '''
        def code(d):
            out('gcd', [(MathOperations.gcd(a, b), MathOperations.gcd(b, a)) for a, b in %(pairs)r])
        def spec(d):
            out('gcd', %(values)r)
'''

def run(ck):
    import math
    t = mk_seq('list', [unit(sym('t%d' % i, 'num')) for i in range(8)])
    for calls, result, read in MEASURES:
        ck.same('clock: %s' % calls, ck.interp(), CLOCK % {'calls': calls, 'result': result, 'read': read}, [t], rule='times between readings of the clock')
    x = mk_seq('list', [unit(sym('x%d' % i, '?')) for i in range(7)])
    for n in (1, 2, 3, 7, 9):
        for size in (0, 1, 3, 6, 7):
            ck.same('%d items by %d' % (size, n), ck.interp(), CHUNKS % {'seq': 'x[:%d]' % size, 'n': n, 'fill': ', f', 'with_': 'f'}, [x, sym('f', '?')], rule='blocks in order, the last one filled up')
    ck.same('default filling', ck.interp(), CHUNKS % {'seq': 'iter(x[:5])', 'n': 3, 'fill': '', 'with_': 'None'}, [x, NONE], rule='blocks in order, the last one filled up')
    e = mk_seq('list', [unit(sym('e%d' % i, 'str')) for i in range(4)])
    for n in range(5):
        ck.same('%d equations' % n, ck.interp(), TEX % {'eqns': 'e[:%d]' % n}, [sym('filename', 'str'), e], rule='every equation once, in order, as it is, in one document')
    ck.same('equal equations', ck.interp(), TEX % {'eqns': '[e[0], e[1], e[0], e[0]]'}, [sym('filename', 'str'), e], rule='every equation once, in order, as it is, in one document')
    for files in ([], ['config_0.ini'], ['config_0.ini', 'config_1.ini', 'config_2.ini', 'config_3.ini'], ['a.txt', 'b.ini', 'ini', 'c.ini.bak', 'd.ini', 'e.INIT'], ['a.b.ini', '.ini.swp', 'x_ini']):
        ck.same('runs of %s' % files, ck.interp(), RUNS % {'files': files}, [K('parts/all')], rule='every configuration of the folder is run once')
    for kind_ in ('normal', 'indexed', 'sparse'):
        ck.same('precision of %s polynomials' % kind_, ck.interp(), PREC % {'kind': kind_}, [sym('p', 'int'), sym('q', 'int'), sym('r', 'int')], rule='its own precision is restored')
    for n in range(6):
        c = mk_seq('list', [unit(sym('c%d' % i, 'num')) for i in range(n)])
        ck.same('polynomial of %d coefficients' % n, ck.interp(), POLY, [c, sym('x', 'num')], rule='the value of the polynomial')
    pairs = [(a, b) for a in (1, 2, 6, 15, 35, 36, 64) for b in (1, 4, 9, 21, 48, 100)]
    ck.same('greatest common divisors', ck.interp(), GCD % {'pairs': pairs, 'values': [(math.gcd(a, b),) * 2 for a, b in pairs]}, [ZERO], rule='gcd of positive numbers in either order')
