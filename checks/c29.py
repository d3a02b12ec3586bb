"""C29: the exported table of results holds every click, in order, with its parameters and the digits of its two sides."""
from engine.terms import *

MIN = 6

HEAD = '''
        import enum_params, mpmath
        from mpmath import mp, nstr, inf, mpf
        from enum_params import MITM
        from verif_out import out, stub
        SAVED = {}
        class Buf:
            def __init__(self, *a, **k):
                self.rows, self.pos = [], 0
            def __enter__(self):
                return self
            def __exit__(self, *a):
                return False
            def seek(self, pos, whence=0):
                self.pos = pos if whence == 0 else len(self.rows)
            def close(self):
                pass
            def getvalue(self):
                return self.rows
            def read(self):
                return self.rows[self.pos:]
            def add(self, row):
                self.rows.append(row)
                self.pos = len(self.rows)
            def write(self, rows):
                for r in rows:
                    self.add(r)
        class File(Buf):
            def __init__(self, name, mode='r'):
                self.name = name
                self.rows, self.pos = [], 0
                if name in SAVED and mode[0] == 'a':
                    self.rows = SAVED[name]
                if name in SAVED and mode[0] == 'x':
                    raise FileExistsError(name)
                if name not in SAVED and mode[0] == 'r':
                    raise FileNotFoundError(name)
                self.pos = len(self.rows)
                SAVED[name] = self.rows
        class Writer:
            def __init__(self, f, *a, **k):
                self.f = f
            def writerow(self, row):
                self.f.add(list(row))
            def writerows(self, rows):
                for row in rows:
                    self.f.add(list(row))
        stub('csv.writer', Writer)
        stub('io.StringIO', Buf)
        def copyfileobj(src, dst, *a):
            for r in src.read():
                dst.add(r)
        stub('shutil.copyfileobj', copyfileobj)
        enum_params.open = lambda name, mode='r', *a, **k: File(name, mode)
        class Frac:
            def __init__(self, a_coeffs=None, b_coeffs=None, *a, **k):
                self.a, self.b, self.n = a_coeffs, b_coeffs, 0
            def reinitialize(self, a_coeffs, b_coeffs, *a):
                self.a, self.b, self.n = a_coeffs, b_coeffs, 0
            def gen_iterations(self, num_of_iters, *a, **k):
                self.n = num_of_iters
            def add_iterations(self, num_of_iters, *a, **k):
                self.n += num_of_iters
            def get_result(self):
                return value(self.a, self.b, self.n)
            def is_result_valid(self):
                return True
        enum_params.cont_fracs.ContFrac = Frac
        class Lhs:
            def __init__(self, params, val):
                self.params, self.val = params, val
            def get_params(self):
                return self.params
            def get_val(self):
                return self.val
        class Enum:
            def __init__(self, **kw):
                pass
'''
SRC = HEAD + '''
        def code(name, A, B, params, vals, post, info, prec, value_, functions, filename):
            global value
            value = value_
            m = MITM(target_generator=lambda: mpf(1), target_name=name, ab_poly_class=Enum, prec=prec,
                     postproc_funcs=[(lambda x: functions(0, x)), (lambda x: functions(1, x)), (lambda x: functions(2, x))])
            m.filtered_params = [((A[i], B[i]), Lhs(params[i], vals[i]), %(post)s[i], info[i]) for i in range(%(n)d)]
            before = list(m.filtered_params)
            %(first)s
            m.export_to_csv(filename)
            out('files', list(SAVED))
            rows = SAVED[filename]
            out('rows', len(rows))
            out('target', rows[0])
            out('columns', [len(r) for r in rows])
            out('results', [r[:3] + r[4:] for r in rows[2:]])
            out('clicks', m.get_filtered_params() == before)
        def spec(name, A, B, params, vals, post, info, prec, value, functions, filename):
            MITM(target_generator=lambda: mpf(1), target_name=name, ab_poly_class=Enum, prec=prec)
            out('files', [filename])
            out('rows', 2 + %(n)d)
            out('target', ['target_name', name])
            out('columns', [2, 9] + [9] * %(n)d)
            digits = lambda x: nstr(x, mp.dps, strip_zeros=False, min_fixed=-inf, max_fixed=inf)
            out('results', [[A[i], B[i], %(post)s[i], params[i], info[i][0], info[i][1], digits(functions(%(post)s[i], value(A[i], B[i], 400))), digits(vals[i])] for i in range(%(n)d)])
            out('clicks', True)
'''

def run(ck):
    name, filename, prec = sym('name', 'str'), sym('filename', 'str'), sym('prec', 'int')
    value, functions = sym('value', 'fn'), sym('functions', 'fn')
    L = lambda n, shape: mk_seq('list', [unit(sym('%s%d' % (n, i), shape)) for i in range(3)])
    A, B, params, vals = L('a', ('list', ('list', 'int'))), L('b', ('list', ('list', 'int'))), L('p', ('list', 'int')), L('v', 'num')
    info = mk_seq('list', [unit(tup(sym('t%d' % i, 'str'), sym('r%d' % i, '?'))) for i in range(3)])
    for n in (0, 1, 2, 3):
        for post in ('[0, 1, 2]', '[2, 2, 0]', '[1, 0, 1]'):
            ck.same('%d clicks, functions %s' % (n, post), ck.interp(), SRC % {'n': n, 'post': post, 'first': 'pass'}, [name, A, B, params, vals, NONE, info, prec, value, functions, filename],
                    rule='one row for each click: its polynomials, function, parameters, convergence and the digits of both sides')
    for n in (0, 2):
        ck.same('%d clicks, exported again to the same file' % n, ck.interp(),
                SRC % {'n': n, 'post': '[0, 1, 2]', 'first': 'm.export_to_csv(filename)'}, [name, A, B, params, vals, NONE, info, prec, value, functions, filename],
                rule='a second export replaces the first')
