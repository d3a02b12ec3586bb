"""C22: the constant a search looks for is the one its configuration names, correct to all the digits the search can use."""
from engine.terms import *
from checks import pipeline
from checks.refconsts import REF

MIN = 25

GEN = pipeline.HEAD + '''
        def code(''' + pipeline.PARAMS + '''):
            i = %(i)s
''' + pipeline.CONFIG[1:] + '''
            log = go(config, now, have)
            p = [x for x in log if x[0] == 'dump'][0][4]
            T = p[0]
            out('accurate', abs(T - mpf(%(ref)r)) < mpf('1E-%(digits)d'))
            out('name', p[1])
        def spec(''' + pipeline.PARAMS + '''):
            out('accurate', True)
            out('name', %(name)r)
'''
FN = '''
        import gen_consts
        from mpmath import mpf, mp
        from verif_out import out
        def code(prec):
            out('accurate', all([abs(gen_consts.%(fn)s(%(args)s) - mpf(%(ref)r)) < mpf('1E-%(digits)d') for _ in range(2)]))
            out('precision', mp.dps)
        def spec(prec):
            gen_consts
            out('accurate', True)
            out('precision', %(prec)s)
'''
FNS = {'pi': 'gen_pi_const', 'e': 'gen_e_const', 'euler_masch': 'gen_euler_masch_const', 'phi': 'gen_phi_const', 'apery': 'gen_apery_const', 'zeta': 'gen_zeta_consts',
       'percolation': 'gen_percolation_consts', 'feig': 'gen_feig_consts'}

def run(ck):
    for key in REF:
        const, i = (key.split() + ['0'])[:2]
        digits = 148 if const in ('pi', 'e') else 97
        name = '%s, %s' % (const, i) if const in ('feig', 'percolation') else const
        src = GEN
        for k, x in (('%(const)r', repr(const)), ('%(op)r', "'generate'"), ('%(i)s', i), ('%(ref)r', repr(REF[key])), ('%(digits)d', str(digits)), ('%(name)r', repr(name))):
            src = src.replace(k, x)
        ck.same('target/%s' % key, ck.interp(), src, pipeline.args(True), rule='target of the search = the named constant to %d digits' % digits)
        a = 'i=%s' % i if const in ('feig', 'percolation', 'zeta') else ''
        ck.same('generator/%s' % key, ck.interp(), FN % {'fn': FNS[const], 'args': a, 'ref': REF[key], 'digits': digits, 'prec': 150}, [sym('prec', 'int')],
                rule='the generator gives the constant to %d digits' % digits)
        ck.same('generator/%s with precision' % key, ck.interp(), FN % {'fn': FNS[const], 'args': ', '.join(['prec'] + ([a] if a else [])), 'ref': REF[key], 'digits': digits, 'prec': 'prec'},
                [sym('prec', 'int')], given=le(ONE, sym('prec', 'int')), rule='asking for a working precision sets it')
