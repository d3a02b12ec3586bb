"""C28: a distributed search covers every point of the enumerated ranges exactly once, in parts that are not empty and have tables of their own."""
from engine.terms import *
from checks.ini import HEAD
from checks.c25 import BASE

MIN = 40

# every range of a part lies inside the given one, is not empty, and a point is in exactly one of the parts
POINT = '''
        import distribute_run
        from verif_out import out
        def flat(ab):
            return [r for poly_or_b in ab for poly in poly_or_b for r in poly]
        def parts(ranges):
            a, b = ranges
            return distribute_run.split_params([a, b], %(k)d)
        def code(%(args)s, P):
            given = [%(a)s, %(b)s]
            ps = parts(given)
            out('number', len(ps))
            out('shape', [[[len(poly) for poly in c] for c in p] for p in ps])
            inside = 0
            for p in ps:
                ok = True
                for r, x in zip(flat(p), P):
                    if not (r[0] <= x and x < r[1]):
                        ok = False
                if ok:
                    inside += 1
            out('parts that have the point', inside)
            out('the ranges given', given)
        def spec(%(args)s, P):
            given = [%(a)s, %(b)s]
            out('number', 2 ** %(k)d)
            out('shape', [[[len(poly) for poly in c] for c in given] for i in range(2 ** %(k)d)])
            out('parts that have the point', 1 if all([r[0] <= x and x < r[1] for r, x in zip(flat(given), P)]) else 0)
            out('the ranges given', [%(a)s, %(b)s])
'''


REFUSED = """
        import distribute_run
        from verif_out import out
        def code(a, b):
            out('parts', distribute_run.split_params([[%(a)s], [%(b)s]], %(k)d))
        def spec(a, b):
            raise ValueError('nothing to split')
"""

NUMBER = HEAD + """
        BASE = %(base)r
        import distribute_run
        stub('os.path.isdir', lambda p: False)
        stub('os.path.exists', lambda p: False)
        stub('os.mkdir', lambda p, *a, **k: None)
        stub('os.makedirs', lambda p, *a, **k: None)
        FILES['the.ini'] = {'Setup': BASE}
        def code():
            try:
                distribute_run.main(%(n)s, 'the.ini')
            finally:
                out('files', sorted([f for f in FILES if f != 'the.ini']))
        def spec():
            out('files', [])
            raise ValueError('not a power of 2')
"""

PARTS = HEAD + """
        BASE = %(base)r
        import distribute_run
        MADE = []
        stub('os.path.isdir', lambda p: have)
        stub('os.path.exists', lambda p: have)
        def mkdir(p, mode=511):
            if have:
                raise FileExistsError(p)
            MADE.append(p)
        def makedirs(p, mode=511, exist_ok=False):
            if not (exist_ok and have):
                mkdir(p)
        stub('os.mkdir', mkdir)
        stub('os.makedirs', makedirs)
        N = %(n)d
        DIRS['tables'] = %(files)s
        def points(a, b):
            return [(r[0], r[1]) for c in (a, b) for poly in c for r in poly]
        def cover(w, l, h, r, P):
            inside = 0
            for f in w:
                c = ConfigParser(configfile=f).get_config()
                ok = True
                empty = False
                for (x, y), q in zip(points(c['a_coeffs_range'], c['b_coeffs_range']), P):
                    if not (x <= q and q < y):
                        ok = False
                    if not x < y:
                        empty = True
                if ok:
                    inside += 1
                out(f + ' is empty', empty)
            out('parts that have the point', inside)
        def code(l, h, r, P, have_):
            global have
            have = have_
            FILES['dir/the.ini'] = {'Setup': dict(BASE, %(which)s_coeffs_range='[[[%%d, %%d], [%%d, %%d]]]' %% (l, h, r, r + 1), %(other)s_coeffs_range='[[[%%d, %%d]]]' %% (l, l + 1))}
            distribute_run.main(N, 'dir/the.ini')
            w = sorted([f for f in FILES if f != 'dir/the.ini'])
            out('files', w)
            out('directories', MADE)
            cover(w, l, h, r, P)
            tables = []
            for f in w:
                c = ConfigParser(configfile=f).get_config()
                for t in ('hashtable_file', 'hashtable_output_file') if %(op)r != 'use' else ('hashtable_file',):
                    tables.append(c[t])
            out('tables', tables)
        def spec(l, h, r, P, have):
            names = ['dir/the_dist_%(n)d/the_' + str(i) + '.ini' for i in range(N)]
            w = sorted(names)
            out('files', w)
            out('directories', [] if have else ['dir/the_dist_%(n)d'])
            for f in w:
                out(f + ' is empty', False)
            lo, hi = ([l, r, l], [h, r + 1, l + 1]) if %(which)r == 'a' else ([l, l, r], [l + 1, h, r + 1])
            ok = True
            for i in range(3):
                if not (lo[i] <= P[i] and P[i] < hi[i]):
                    ok = False
            out('parts that have the point', 1 if ok else 0)
            tables = []
            for i in [names.index(f) for f in w]:
                for t in ('hashtable_file', 'hashtable_output_file') if %(op)r != 'use' else ('hashtable_file',):
                    tables.append('tables/%(table)s_part%%02d%%s.pkl' %% (i, %(version)s))
            out('tables', tables)
"""

def run(ck):
    S = lambda n: sym(n, 'int')
    for na, nb in (([1], [1]), ([2], [1]), ([1], [2]), ([2], [2]), ([1, 1], [1]), ([1], [2, 1])):
        for k in (0, 1, 2):
            names = ['x%d' % i for i in range(sum(na) + sum(nb))]
            args, rs, given, wide = [], [], TRUE, []
            first = list(range(na[0])) + [sum(na) + i for i in range(nb[0])]       # the ranges of the first polynomials
            for i, x in enumerate(names):
                lo, w = S(x + 'l'), S(x + 'h')
                args += [x + 'l', x + 'h']
                given = b_and(given, lt(lo, w))
                wide.append(lambda v, lo=lo, w=w: le(add(lo, K(v)), w))
            if k == 1:
                given = b_and(given, b_or(*[wide[i](2) for i in first]))
            if k == 2:
                if sum(na) + sum(nb) > 3:
                    given = b_and(given, b_or(*[wide[i](4) for i in first]))
                else:
                    given = b_and(given, b_or(b_or(*[wide[i](4) for i in first]), *[b_and(wide[i](2), wide[j](2)) for i in first for j in first if i < j]))
            it = iter(names)
            text = lambda ns: '[%s]' % ', '.join('[%s]' % ', '.join('[%sl, %sh]' % (x, x) for x in [next(it) for _ in range(n)]) for n in ns)
            a, b = text(na), text(nb)
            P = mk_seq('list', [unit(S('p%d' % i)) for i in range(len(names))])
            ck.same('ranges of %s and %s, 2^%d parts' % (na, nb, k), ck.interp(), POINT % {'k': k, 'args': ', '.join(args), 'a': a, 'b': b},
                    [S(x) for x in args] + [P], given=given, rule='each point of the ranges is in exactly one part')
    for a, b, k in (('[[a, a + 1]]', '[[b, b + 1]]', 1), ('[[a, a + 2]]', '[[b, b + 1]]', 2), ('[[a, a + 1], [b, b + 1]]', '[[b, b + 2]]', 2), ('[[a, a + 1], [b, b + 1]]', '[[a, a + 1], [b, b + 1]]', 1)):
        ck.same('%s and %s in 2^%d' % (a, b, k), ck.interp(), REFUSED % {'a': a, 'b': b, 'k': k}, [S('a'), S('b')], rule='more parts than points are refused')
    for n in ('3', '5', '6', '7', '12', '24', '100'):
        ck.same('%s parts' % n, ck.interp(), NUMBER % {'base': dict(BASE, hashtable_file_operation='generate', a_coeffs_range='[[[-50, 90]]]'), 'n': n}, [], rule='only powers of 2')
    l, h, r = S('l'), S('h'), S('r')
    P = mk_seq('list', [unit(S('p%d' % i)) for i in range(3)])
    for n in (1, 2, 4, 32):
        for which in 'ab':
            for op, files, table, version in (('generate', '[]', 'Big_v1', "'_v1'"), ('use', "['Big_v3.pkl'] + ['Big_v3_part%02d.pkl' % i for i in range(N)]", 'Big_v3', "''"),
                                              ('generate', "['Big_v3.pkl']", 'Big_v4', "'_v1'"), ('generate', "['Big.pkl', 'Big_v3.pkl', 'Big_v4_part01_v6.pkl']", 'Big_v4', "'_v7' if i == 1 else '_v1'")):
                if n == 1 and 'part01' in files or n == 32 and (which == 'b' or files != '[]'):
                    continue
                ck.same('%d parts, %s, %s, %s' % (n, which, op, files), ck.interp(), PARTS % {
                    'base': dict(BASE, hashtable_file_operation=op), 'n': n, 'which': which, 'other': 'ba'['ab'.index(which)], 'op': op, 'files': files, 'table': table, 'version': version},
                    [l, h if n < 32 else add(l, K(n)), r, P, sym('have', 'bool')], given=le(add(l, K(n)), h) if n < 32 else TRUE, rule='one file for each part, which together cover the ranges once, with different tables')
