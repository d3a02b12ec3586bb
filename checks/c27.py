"""C27: a table file is never overwritten by a newer table, and the newest stored table is the one that is read."""
from engine.terms import *
from checks.ini import HEAD
from checks.c25 import BASE

MIN = 200

ONE = HEAD + '''
        BASE = %(base)r
        %(maxi)s
        def split(c, key):
            d, f = os.path.split(c[key])
            out(key + ' directory', d or '.')
            out(key, f)
        def code(a, b, c):
            DIRS[%(dir)r] = %(files)s
            DIRS['elsewhere'] = ['Big_v8.pkl']
            FILES['the.ini'] = {'Setup': dict(BASE, hashtable_file=%(given)s)}
            c = ConfigParser(configfile='the.ini').get_config()
            split(c, 'hashtable_file')
            if %(op)r != 'use':
                split(c, 'hashtable_output_file')
        def spec(a, b, c):
            new = %(new)s
            out('hashtable_file directory', %(dir)r)
            out('hashtable_file', %(read)s if %(op)r != 'generate' else new)
            if %(op)r != 'use':
                out('hashtable_output_file directory', %(dir)r)
                out('hashtable_output_file', new)
'''

MAX = '''def most(*v):
            m = v[0]
            for x in v[1:]:
                if x > m:
                    m = x
            return m'''

def run(ck):
    a, b, c = [app('abs', sym(n, 'int')) for n in 'abc']
    diff = b_and(*[b_not(eq(x, y)) for x, y in ((a, b), (a, c), (b, c))])
    pos = b_and(lt(ZERO, a), lt(ZERO, b), lt(ZERO, c))
    V = lambda base: lambda *e: [("'%s_v%%d.pkl' %% %s" % (base, x)) if isinstance(x, str) else repr(x[0]) for x in e]
    noise = ['notes.txt', 'Bigger_v9.pkl', 'aBig_v9.pkl', 'Big_v9.pkl.bak', 'Big_v9', 'Big_v9xpkl', 'Big_vx.pkl', 'Big_v.pkl', 'Big_x_v9.pkl', 'big_v9.pkl', 'Big-v9.pkl', 'Big_v9_v12.pkl']
    for op in ('generate', 'expand', 'use'):
        for dir_, path in (('tables', 'tables/'), ('.', '')):
            for given in ('Big.pkl', 'Big', 'Big_v2.pkl', 'Big_v11.pkl'):
                cases = [
                    ('one version', ["'Big_v%d.pkl' % a"], 'a', "'Big_v%d.pkl' % a"),
                    ('two versions', ["'Big_v%d.pkl' % a", "'Big_v%d.pkl' % b"], 'most(a, b)', "'Big_v%d.pkl' % most(a, b)"),
                    ('three versions', ["'Big_v%d.pkl' % a", "'Big_v%d.pkl' % b", "'Big_v%d.pkl' % c"], 'most(a, b, c)', "'Big_v%d.pkl' % most(a, b, c)"),
                    ('unversioned', ["'Big.pkl'"], '0', "'Big.pkl'"),
                    ('unversioned first', ["'Big.pkl'", "'Big_v%d.pkl' % a"], 'a', "'Big_v%d.pkl' % a"),
                    ('unversioned last', ["'Big_v%d.pkl' % a", "'Big_v%d.pkl' % b", "'Big.pkl'"], 'most(a, b)', "'Big_v%d.pkl' % most(a, b)"),
                    ('others around', [repr(n) for n in noise[:6]] + ["'Big_v%d.pkl' % a"] + [repr(n) for n in noise[6:]], 'a', "'Big_v%d.pkl' % a"),
                    ('9, 10, 100 and 11', ["'Big_v9.pkl'", "'Big_v10.pkl'", "'Big_v100.pkl'", "'Big_v11.pkl'"], '100', "'Big_v100.pkl'")]
                if path == '' and given not in ('Big.pkl',):
                    cases = cases[:1]
                for what, files, top, read in cases:
                    ck.same('%s %s%s: %s' % (op, path, given, what), ck.interp(), ONE % {
                        'base': dict(BASE, hashtable_file_operation=op), 'maxi': MAX, 'dir': dir_, 'files': '[%s]' % ', '.join(files), 'given': repr(path + given), 'op': op,
                        'new': "'Big_v%%d.pkl' %% (%s + 1)" % top, 'read': read}, [a, b, c], given=b_and(diff, pos), rule='reads the newest version, writes the one after it')
                # no table yet
                first = given if '_v' in given else 'Big_v1.pkl'
                for what, files in (('empty directory', []), ('no version of it', noise)):
                    if path == '' and what != 'empty directory':
                        continue
                    ck.same('%s %s%s: %s' % (op, path, given, what), ck.interp(), ONE % {
                        'base': dict(BASE, hashtable_file_operation=op), 'maxi': '', 'dir': dir_, 'files': repr(files), 'given': repr(path + given), 'op': op,
                        'new': repr(first), 'read': repr(first)}, [a, b, c], rule='the first version')
        for base, decoys in (('a.b', ['axb_v9.pkl', 'a.bb_v9.pkl']), ('C++', ['C_v9.pkl', 'CC_v9.pkl']), ('pi(2)', ['pi2_v9.pkl']), ('t[1]', ['t1_v9.pkl']), ('x|y', ['x_v9.pkl', 'y_v9.pkl', 'x', 'y']),
                             ('Big_v2_v', ['Big_v2.pkl']), ('v_v7', ['v_v9.pkl']), ('c^2$', ['c_v9.pkl']), ('my tables', ['my_v9.pkl']), ('Big.pkl', ['Big_v9.pkl', 'Big.pkl']), ('a.pkl_old', ['a_old_v9.pkl', 'a_v9.pkl', 'a.pkl']), ('"q"', ['q_v9.pkl']), ('%d', ['1_v9.pkl'])):
            for given in (base + '.pkl', base + '_v3.pkl') if base != 'v_v7' else (base + '_v3.pkl',):
                ck.same('%s %s: special name' % (op, given), ck.interp(), ONE % {
                    'base': dict(BASE, hashtable_file_operation=op), 'maxi': MAX, 'dir': 'tables', 'files': '[%s]' % ', '.join(
                        [repr(d) for d in decoys] + ["%r %% a" % (base.replace('%', '%%') + '_v%d.pkl'), "%r %% b" % (base.replace('%', '%%') + '_v%d.pkl')]), 'given': repr('tables/' + given), 'op': op,
                    'new': "%r %% (most(a, b) + 1)" % (base.replace('%', '%%') + '_v%d.pkl'), 'read': "%r %% most(a, b)" % (base.replace('%', '%%') + '_v%d.pkl')}, [a, b, c], given=b_and(diff, pos), rule='the name is taken literally')
