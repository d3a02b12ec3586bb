"""C32: cleaning a stored table drops exactly the entries whose b polynomials have integer roots."""
from engine.terms import *

MIN = 10

SRC = '''
        import fix_hashtable_filter_init_b_root as F
        from decimal_hashtable import DecimalHashTable
        from verif_out import out, stub
        LOG = []
        PARAMS = {'a': 1}
        class File:
            def __init__(self, name, mode):
                self.name, self.mode = name, mode
            def __enter__(self):
                return self
            def __exit__(self, *a):
                return False
            def close(self):
                pass
        class Search:
            def __init__(self, table, rest):
                self.dec_hashtable, self.rest = table, rest
        F.open = lambda name, mode='r', *a, **k: File(name, mode)
        def table(acc, entries):
            t = DecimalHashTable(acc)
            t['parameters'] = PARAMS
            for k, v in entries:
                t[k] = v
            return t
        def code(acc, A, I, rest):
            entries = %(entries)s
            m = Search(table(acc, entries), rest)
            def load(f, *a, **k):
                LOG.append(('load', f.name, f.mode))
                return m
            def dump(x, f, *a, **k):
                LOG.append(('dump', f.name, f.mode))
                out('stored', (sorted(x.dec_hashtable.items(), key=lambda e: e[0]), x.rest))
            stub('dill.load', load)
            stub('dill.dump', dump)
            F.main(%(path)r)
            out('files', LOG)
        def spec(acc, A, I, rest):
            t = table(acc, %(kept)s)
            out('stored', (sorted(t.items(), key=lambda e: e[0]), rest))
            out('files', [('load', %(path)r, 'rb'), ('dump', %(to)r, 'wb')])
'''
# b polynomials with and without an integer root (coefficients from the constant one on)
# (a root at 0 alone does no harm: no term is evaluated there; more than degree 2 is not looked at)
ROOT = ['(-2, 1)', '(3, 1)', '(2, -3, 1)', '(-6, 1, 1)', '(0, -8, 2)', '(9, 6, 1)', '(-1, 0, 1)', '(-4, 2)', '(0, 0, 5, 5)', '(-3, 2, 1)', '(4, 0, -1)', '(4, 4, 1)', '(3, 7, 2)', '(-2, -1, 3)']
NONE_ = ['(1,)', '(-5,)', '(1, 2)', '(1, 0, 1)', '(-2, 0, 1)', '(1, 1, 1)', '(2, 3)', '(-1, 4)', '(1, 5, 6)', '(1, 0, 0, 2)', '(-1, -1, 1)', '(3, -7, 2, 5)', '(0, 1)', '(0, 0, 1)', '(0, 2, 5)']

def run(ck):
    import itertools
    acc, rest = sym('acc', 'int'), sym('rest', '?')
    A = mk_seq('list', [unit(sym('a%d' % i, ('tuple', ('tuple', 'int')))) for i in range(8)])
    I = mk_seq('list', [unit(sym('i%d' % i, 'int')) for i in range(8)])

    def case(name, keys, path='data/table_v3.pkl', to='data/table_v3_fixed.pkl', a=None):
        """keys: list of (key, [list of b polynomials per entry])"""
        n, ent, kept = 0, [], []
        for k, bs in keys:
            e = []
            for b in bs:
                e.append(('((%s, (%s,)), I[%d])' % (a or 'A[%d]' % n, ', '.join(b), n), any(p in ROOT for p in b)))
                n += 1
            ent.append('(%r, [%s])' % (k, ', '.join(x for x, _ in e)))
            if any(not bad for _, bad in e):
                kept.append('(%r, [%s])' % (k, ', '.join(x for x, bad in e if not bad)))
        L = lambda xs: '[%s]' % ', '.join(xs)
        ck.same(name, ck.interp(), SRC % {'entries': L(ent), 'kept': L(kept), 'path': path, 'to': to}, [acc, A, I, rest], rule='kept: exactly the entries without integer roots in b')

    for i, (r, n) in enumerate(zip(ROOT, itertools.cycle(NONE_))):
        case('root %s, none %s' % (r, n), [('1234', [[r], [n]]), ('5678', [[n], [r]]), ('9999', [[r]])])
    for i, n in enumerate(NONE_):
        case('no root in %s' % n, [('1234', [[n], [n, n]])])
    r, n = ROOT[3], NONE_[3]
    case('runs of dropped entries', [('11', [[r], [r], [n], [r], [r], [n], [r]])])
    case('runs of kept entries', [('11', [[n], [n], [r], [n], [n], [r], [n]])])
    case('interlaces', [('11', [[n, r], [r, n], [n, n], [n, n, r]]), ('22', [[r, r], [r, r]])])
    case('roots of a do not count', [('11', [[n], [r], [n]])], a=r)
    case('two roots among more', [('11', [[r, r], [n], [n, n], [n], [r, n, r], [n]])])
    case('all dropped', [('11', [[r], [r]]), ('22', [[r]])])
    case('empty table', [])
    case('nothing to drop', [('11', [[n]]), ('22', [[n], [n]])])
    case('other folder', [('11', [[n]])], '/x.y/t.pkl', '/x.y/t_fixed.pkl')
    case('name without extension', [('11', [[n], [r]])], 'a.b/t', 'a.b/t_fixed')
    case('name with dots', [('11', [[n], [r]])], 'a.b.pkl', 'a.b_fixed.pkl')
