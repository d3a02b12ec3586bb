"""C07: saving, loading and joining digit-keyed tables loses nothing and duplicates nothing."""
from engine.terms import *
from engine.interp import bi
from checks.c05 import history, HEAD, mpf_interp

MIN = 12

JOIN = HEAD + '''
        def as_list(v):
            return v if isinstance(v, list) else [v]
        def code(k1, k2, k3, v, w, acc, acc2, acc3, d):
            t, t2 = DecimalHashTable(acc), DecimalHashTable(acc)
            %(a)s
            t.append_dict(t2)
            out('items', list(t.items()))
            out('appended unchanged', list(t2.items()))
            out('lookup', [t.get(k3, d), k3 in t])
        def spec(k1, k2, k3, v, w, acc, acc2, acc3, d):
            h, a = [], acc
            t, t2 = {}, {}
            %(b)s
            out('appended unchanged', list(t2.items()))
            for k, x in t2.items():
                if k in t:
                    t[k] = as_list(t[k]) + as_list(x)
                else:
                    t[k] = x
            out('items', list(t.items()))
            out('lookup', [find(t, h, a, k3, d), has(t, h, a, k3)])
'''
THREE = HEAD + """
        def as_list(v):
            return v if isinstance(v, list) else [v]
        def join(t, t2):
            for k, x in t2.items():
                t[k] = as_list(t[k]) + as_list(x) if k in t else x
        def code(k, v, acc, acc1, acc2, acc3, d):
            t = [DecimalHashTable(acc) for i in range(3)]
            for i, j in %(at)s:
                t[i][k[j]] = %(value)s
            for i in range(1, 3):
                t[0].append_dict(t[i])
            out('joined', list(t[0].items()))
            out('appended unchanged', [list(x.items()) for x in t[1:]])
        def spec(k, v, acc, acc1, acc2, acc3, d):
            t = [{} for i in range(3)]
            for i, j in %(at)s:
                t[i][dig(k[j], acc)] = %(value)s
            out('appended unchanged', [list(x.items()) for x in t[1:]])
            join(t[0], t[1])
            join(t[0], t[2])
            out('joined', list(t[0].items()))
"""
# tables whose accuracies changed from different values to the same one
HISTORIES = HEAD + """
        def code(k, v, acc, acc1, acc2, acc3, d):
            t = [DecimalHashTable(acc1), DecimalHashTable(acc2), DecimalHashTable(acc3)][:%(n)d]
            for i in range(%(n)d):
                t[i][k[i]] = [v[i]]
                t[i].update_accuracy(acc)
            for x in t[1:]:
                t[0].append_dict(x)
            %(then)s
            out('found', [(x in t[0], t[0].get(x, d)) for x in k[%(probe)d:%(probe)d + 1]])
            out('items', list(t[0].items()))
        def spec(k, v, acc, acc1, acc2, acc3, d):
            accs, t = [acc1, acc2, acc3][:%(n)d], {}
            for i in range(%(n)d):
                x = dig(k[i], accs[i])
                if i == 0:
                    t[x] = [v[i]]
                elif x in t:
                    t[x] = t[x] + [v[i]]
                else:
                    t[x] = [v[i]]
            %(spec)s
            out('found', [(has(t, accs, acc, x), find(t, accs, acc, x, d)) for x in k[%(probe)d:%(probe)d + 1]])
            out('items', list(t.items()))
"""
MISMATCH = HEAD + '''
        def code(k1, k2, v, w, acc, acc2):
            t, t2 = DecimalHashTable(acc), DecimalHashTable(acc2)
            t[k1], t2[k2] = [v], [w]
            %s
            refused = False
            try:
                t.append_dict(t2)
            except TypeError:
                refused = True
            out('refused', refused)
            out('items', list(t.items()))
        def spec(k1, k2, v, w, acc, acc2):
            out('refused', True)
            out('items', [(dig(k1, acc), [v])])
'''
FILES = HEAD + """
        from verif_out import stub, path
        import join_hashtables
        class M:
            pass
        def run(v, n, exists):
            names = ['x%d.pkl' % i for i in range(n)]
            tables = {}
            for i in range(n):
                m = M()
                m.dec_hashtable = DecimalHashTable(9)
                m.dec_hashtable['k%d' % (i % 2)] = [v[i]]
                tables['dir/x%d.pkl' % i] = m
            dumped = []
            stub('os.listdir', lambda d: ['notes.txt', 'spkl', 'x9.PKL'] + names[:1] + ['x.pkl.bak', 'pkl', 'x.pkl.d'] + names[1:])
            stub('os.path.exists', lambda p: p == 'o.pkl' and exists)
            stub('pickle.load', lambda f: tables[path(f)])
            stub('pickle.dump', lambda m, f, protocol=None: dumped.append((path(f), list(m.dec_hashtable.items()))))
            join_hashtables.main('dir', 'o.pkl')
            return dumped
        def code(*v):
            out('joined', [run(v, 1, False), run(v, 2, False), run(v, 4, False)])
            out('kept', run(v, 2, True))
        def spec(*v):
            out('joined', [[('o.pkl', [('k0', [v[0]])])], [('o.pkl', [('k0', [v[0]]), ('k1', [v[1]])])],
                           [('o.pkl', [('k0', [v[0], v[2]]), ('k1', [v[1], v[3]])])]])
            out('kept', [])
"""
OPS = {'1': ('t[k1] = [v]', 't[dig(k1, acc)] = [v]'), '2': ('t2[k2] = [w]', 't2[dig(k2, acc)] = [w]'),
       '1s': ('t[k1] = v', 't[dig(k1, acc)] = v'), '2s': ('t2[k2] = w', 't2[dig(k2, acc)] = w'),
       '23': ('t2[k3] = [d]', 't2[dig(k3, acc)] = [d]'), '1e': ('t[k1] = []', 't[dig(k1, acc)] = []'),
       'p': ('t["parameters"] = v', 't["parameters"] = v'),
       'o2': ('t2 = DecimalHashTable(acc2); t2[k2] = [w]; t2.update_accuracy(acc)', 'h = [acc2]; t2[dig(k2, acc2)] = [w]'),
       'h1': ('t.update_accuracy(acc2)', 'h, a = h + [a], acc2'),
       'h2': ('t2.update_accuracy(acc2)', 'pass')}

def run(ck):
    rule = 'a saved and loaded table = the table: same entries, accuracy and history'
    for ops in (['pickle'], ['set1', 'pickle'], ['set1', 'set2', 'pickle'], ['set1', 'acc2', 'pickle'], ['set1', 'acc2', 'pickle', 'set1'],
                ['set1', 'pickle', 'acc2', 'set1'], ['set1', 'acc2', 'acc3', 'pickle', 'default'], ['set1', 'pickle', 'set2', 'del']):
        history(ck, 'save and load/', ops, rule=rule)
    num = lambda n: sym(n, 'num')
    v, w, acc, acc2, acc3 = sym('v', 'num'), sym('w', 'num'), sym('acc', 'int'), sym('acc2', 'int'), sym('acc3', 'int')
    a = [num('k1'), num('k2'), num('k3'), v, w, acc, acc2, acc3, sym('d', 'num')]
    g = b_and(le(ONE, acc), le(ONE, acc2), b_not(eq(acc, acc2)))
    ind = '\n            '
    for ops in (('1', '2'), ('1s', '2'), ('1', '2s'), ('1s', '2s'), ('2',), ('1',), ('1', '2', '23'), ('1e', '2'), ('1', 'h1', '2', 'h2'), ('o2',), ('1', 'o2')):
        ck.same('join/' + ' '.join(ops), mpf_interp(ck), JOIN % {'a': ind.join(OPS[o][0] for o in ops), 'b': ind.join(OPS[o][1] for o in ops)}, a, given=g,
                rule='joined table = per-key concatenation, first table first; the appended table is unchanged')
    ks, vs = [mk_seq('list', [unit(num('%s%d' % (n, i))) for i in range(3)]) for n in 'kv']
    a = [ks, vs, acc, sym('acc1', 'int'), acc2, acc3, sym('d', 'num')]
    g3 = b_and(*[le(ONE, x) for x in a[2:6]] + [b_not(eq(x, y)) for i, x in enumerate(a[2:6]) for y in a[3 + i:6]])
    for at in ('((1, 0), (2, 0))', '((0, 0), (1, 0), (2, 0))', '((0, 0), (1, 0), (2, 1))', '((1, 1), (2, 0), (2, 1))'):
        for value in ('[v[i]]', 'v[i]'):
            ck.same('three tables %s %s' % (at, value), mpf_interp(ck), THREE % {'at': at, 'value': value}, a, given=g3,
                    rule='joined table = per-key concatenation, first table first; the appended tables are unchanged')
    for n, probe, then, spec in ((2, 0, 'pass', 'pass'), (2, 1, 'pass', 'pass'), (2, 2, 'pass', 'pass'), (3, 2, 'pass', 'pass'), (2, 1, 't[0][k[1]] = d', 'put(t, accs, acc, k[1], d)')):
        ck.same('histories of %d tables, number %d, %s' % (n, probe, then), mpf_interp(ck), HISTORIES % {'n': n, 'probe': probe, 'then': then, 'spec': spec}, a, given=g3,
                rule='entries stored under any earlier accuracy of any joined table are found')
    b = [num('k1'), num('k2'), v, w, acc, acc2]
    for pre in ('', 't2["parameters"] = w'):
        ck.same('join refused/%s' % pre, mpf_interp(ck), MISMATCH % pre, b, given=b_and(le(ONE, acc), le(ONE, acc2), b_not(eq(acc, acc2))),
                rule='tables of different accuracy are refused and nothing is changed')
    it = mpf_interp(ck)
    ck.same('join of files', it, FILES, [sym('v%d' % i, '?') for i in range(4)], rule='every .pkl file of the directory contributes exactly once; an existing output is not overwritten')
