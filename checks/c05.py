"""C05: the digit-keyed table finds exactly the entries whose number has the same leading digits, under every access form."""
from engine.terms import *

MIN = 10

HEAD = '''
        from decimal_hashtable import DecimalHashTable
        from mpmath import mp, nstr, inf, mpf
        from verif_out import out
        def dig(k, n):
            return nstr(k, mp.dps, strip_zeros=False, min_fixed=-inf, max_fixed=inf)[:n + 2]
        def old(t, hist, k):
            for n in hist:
                if dig(k, n) in t:
                    return dig(k, n)
            return None
        # the table as a plain dictionary of digit strings; hist = earlier accuracies, in order
        def has(t, hist, acc, k):
            return any([dig(k, n) in t for n in hist + [acc]])
        def find(t, hist, acc, k, d):
            for n in hist + [acc]:
                if dig(k, n) in t:
                    return t[dig(k, n)]
            return d
        def put(t, hist, acc, k, v):
            for n in hist:
                if dig(k, n) in t:
                    del t[dig(k, n)]
            t[dig(k, acc)] = v
        def drop(t, hist, acc, k):
            for n in hist + [acc]:
                if dig(k, n) in t:
                    del t[dig(k, n)]
                    return True
            return False
        def look(t, ks, d):
            out('contains', [k in t for k in ks])
            out('get', [t.get(k) for k in ks])
            out('get with default', [t.get(k, d) for k in ks])
            out('item', [(t[k] if k in t else d) for k in ks])
            out('keys', list(t.keys()))
            out('values', list(t.values()))
            out('size', len(t))
        def dlook(t, hist, acc, ks, d):
            out('contains', [has(t, hist, acc, k) for k in ks])
            out('get', [find(t, hist, acc, k, None) for k in ks])
            out('get with default', [find(t, hist, acc, k, d) for k in ks])
            out('item', [find(t, hist, acc, k, d) for k in ks])
            out('keys', list(t.keys()))
            out('values', list(t.values()))
            out('size', len(t))
'''
REBUILD = '''
        def rebuild(t):
            # what pickle and copy do with the result of __reduce__
            r = t.__reduce__()
            if not isinstance(r, tuple):
                raise TypeError
            t2 = r[0](*r[1])
            if len(r) > 2 and r[2] is not None:
                t2.__setstate__(r[2])
            if len(r) > 4 and r[4] is not None:
                for k, v in r[4]:
                    t2[k] = v
            return t2
'''
HEAD += REBUILD
TMPL = HEAD + '''
        def code(k1, k2, k3, v, w, acc, acc2, acc3, d):
            t = DecimalHashTable(acc)
            %(ops)s
            look(t, [%(probe)s], d)
        def spec(k1, k2, k3, v, w, acc, acc2, acc3, d):
            t, h, a = {}, [], acc
            %(spec)s
            dlook(t, h, a, [%(probe)s], d)
'''
MISS = HEAD + '''
        def code(k1, k2, k3, v, w, acc, acc2, acc3, d):
            t = DecimalHashTable(acc)
            t[k1] = v
            missing = False
            try:
                %s
            except KeyError:
                missing = True
            out('missing', missing)
        def spec(k1, k2, k3, v, w, acc, acc2, acc3, d):
            out('missing', dig(k1, acc) != dig(k2, acc))
'''
STRS = HEAD + '''
        def code(k1, s, s2, v, w, acc, acc2, d):
            t = DecimalHashTable(acc)
            t[s] = v
            t[k1] = w
            t.update_accuracy(acc2)
            look(t, [s, s2], d)
        def spec(k1, s, s2, v, w, acc, acc2, d):
            t = {}
            t[s] = v
            t[dig(k1, acc)] = w
            out('contains', [x in t for x in (s, s2)])
            out('get', [t.get(x) for x in (s, s2)])
            out('get with default', [t.get(x, d) for x in (s, s2)])
            out('item', [t.get(x, d) for x in (s, s2)])
            out('keys', list(t.keys()))
            out('values', list(t.values()))
            out('size', len(t))
'''
TYPES = HEAD + '''
        def code(x, acc):
            t = DecimalHashTable(acc)
            %s
        def spec(x, acc):
            raise TypeError
'''
OPS = {'pickle': ('t = rebuild(t)', 'pass'),
       'set1': ('t[k1] = v', 'put(t, h, a, k1, v)'),
       'set2': ('t[k2] = w', 'put(t, h, a, k2, w)'),
       'del': ('if k3 in t:\n                del t[k3]', 'drop(t, h, a, k3)'),
       'default': ('out("default", t.setdefault(k3, d))',
                   'if not has(t, h, a, k3):\n                put(t, h, a, k3, d)\n            out("default", find(t, h, a, k3, None))'),
       'default0': ('out("default", t.setdefault(k3))',
                    'if not has(t, h, a, k3):\n                put(t, h, a, k3, None)\n            out("default", find(t, h, a, k3, d))'),
       'acc2': ('t.update_accuracy(acc2)', 'h, a = h + [a], acc2'),
       'acc3': ('t.update_accuracy(acc3)', 'h, a = h + [a], acc3')}

def history(ck, name, ops, probe='k3', rule=None, given=TRUE):
    ind = '\n            '
    num = lambda n: sym(n, 'num')
    a = [num('k1'), num('k2'), num('k3'), sym('v', '?'), sym('w', '?'), sym('acc', 'int'), sym('acc2', 'int'), sym('acc3', 'int'), sym('d', '?')]
    given = b_and(given, le(ONE, a[5]), le(ONE, a[6]), le(ONE, a[7]), b_not(eq(a[5], a[6])), b_not(eq(a[6], a[7])), b_not(eq(a[5], a[7])))
    it = ck.interp()
    it.assume_mpf = True
    ck.same(name + ' '.join(ops), it, TMPL % {'ops': ind.join(OPS[o][0] for o in ops), 'spec': ind.join(OPS[o][1] for o in ops), 'probe': probe},
            a, given=given, rule=rule or 'every access form = the same access on a dictionary of leading-digit strings')

def mpf_interp(ck):
    it = ck.interp()
    it.assume_mpf = True
    return it

def run(ck):
    for ops in ([], ['set1'], ['set1', 'set2'], ['set1', 'set1'], ['set1', 'default'], ['set1', 'set2', 'del'], ['set1', 'set2', 'default'], ['default', 'set1'], ['set1', 'default0'],
                ['set1', 'del', 'set1']):
        history(ck, 'one accuracy/', ops)
    num = lambda n: sym(n, 'num')
    a = [num('k1'), num('k2'), num('k3'), sym('v', '?'), sym('w', '?'), sym('acc', 'int'), sym('acc2', 'int'), sym('acc3', 'int'), sym('d', '?')]
    g = le(ONE, a[5])
    for form in ('t[k2]', 'del t[k2]'):
        ck.same('missing number/%s' % form, mpf_interp(ck), MISS % form, a, given=g, rule='KeyError iff the leading digits are not stored')
    b = [num('k1'), sym('s', 'str'), sym('s2', 'str'), sym('v', '?'), sym('w', '?'), sym('acc', 'int'), sym('acc2', 'int'), sym('d', '?')]
    ck.same('string keys', mpf_interp(ck), STRS, b, given=le(ONE, b[5]), rule='a string is used as it is')
    for form in ('t[x] = 1', 't[x]', 'x in t', 'del t[x]', 't.get(x)', 't.setdefault(x, 1)'):
        ck.same('other key types/%s' % form, mpf_interp(ck), TYPES % form, [sym('x', ('list', 'num')), sym('acc', 'int')], rule='rejected')
