"""C21: the search applies every stage with its configured parameters to the outcome of the stage before, and saves what the last stage kept."""
from engine.terms import *
from checks.pipeline import HEAD, CONFIG, PARAMS, args

MIN = 5

SRC = HEAD + '''
        CONSTS = {'e': lambda i: gen_consts.gen_e_const(), 'zeta': lambda i: gen_consts.gen_zeta_consts(i=i), 'feig': lambda i: gen_consts.gen_feig_consts(i=i)}
        def code(''' + PARAMS + '''):''' + CONFIG + '''
            log = go(config, now, have)
            out('stored', [x for x in log if x[0] in ('load', 'dump')])
            out('clicks exported', [x for x in log if x[0] == 'csv'])
            out('equations', [x for x in log if x[0] == 'pdf'])
            out('order', [x[0] for x in log])
            out('files', [x for x in log if x[0] in ('mkdir', 'config')])
        def spec(''' + PARAMS + '''):
            op = %(op)r
            log = []
            P = postprocfuncs
            pp = P.EVALUATED_POSTPROC_FUNCS, P.POSTPROC_FUNCS, P.INVERSE_POSTPROC_PAIRS, P.POSTPROC_FUNCS_LATEX
            T, name = CONSTS[%(const)r](i), %(name)s
            table = []
            if op == 'generate':
                settings = [('new', 50, ab_polys_type, ab_polys_special_params, hashtable_num_of_iterations, filter, hashtable_precision, [])]
            else:
                log.append(('load', hashtable_file))
                table = [('stored', hashtable_file)]
                settings = [('stored',)]
                if op == 'use':
                    pp = 'stored postproc functions'
                else:
                    settings = settings + [('redefine', 50, ab_polys_type, ab_polys_special_params, None, filter, hashtable_precision, [])]
            if op != 'use':
                table = table + [('build', settings, T, name, a_coeffs_range, b_coeffs_range, [])]
                log.append(('dump', hashtable_output_file, table, name, (T, name, P.EVALUATED_POSTPROC_FUNCS)))
            stored = list(log)
            clicks = [('find', enum, eval_, lhs_params, table, T), ('refine', first_filtering_precision, first_filtering_num_of_iterations), ('uniq',), ('exp',),
                      ('type', ['exp', 'super_exp'], None), ('refine*', second_filtering_precision, second_filtering_max_num_of_iterations)]
            if not (second_filtering_precision == third_filtering_precision and second_filtering_max_num_of_iterations == third_filtering_max_num_of_iterations):
                clicks = clicks + [('refine*', third_filtering_precision, third_filtering_max_num_of_iterations)]
            clicks = clicks + [('uniq',), ('roots',)]
            d = os.path.join('results', 'd' + now + 'x')
            files = ([] if have else [('mkdir', 'results')]) + [('mkdir', d)]
            csv = [('csv', os.path.join(d, 'results') + '.csv', clicks, pp, name)]
            pdf = [('pdf', os.path.join(d, 'results'), [('eqns', clicks, P.POSTPROC_FUNCS, name)])]
            config = [('config', os.path.join(d, 'config.ini'))]
            out('stored', stored)
            out('clicks exported', [] if only else csv)
            out('equations', [] if only else pdf)
            out('order', [x[0] for x in stored + ([] if only else files + csv + pdf + config)])
            out('files', [] if only else files + config)
'''

BAD = HEAD + '''
        def code(''' + PARAMS + '''):''' + CONFIG + '''
            try:
                go(config, now, have)
            finally:
                out('effects', list(LOG))
        def spec(''' + PARAMS + '''):
            out('effects', [])
            raise ValueError('refused')
'''

def run(ck):
    for const, op in (('gamma', 'generate'), ('gamma', 'use'), ('pi', 'append'), ('pi', None)):
        ck.same('refused/%s %s' % (const, op), ck.interp(), BAD.replace('%(const)r', repr(const)).replace('%(op)r', repr(op)), args(False),
                rule='an unknown constant or operation is refused before anything is read or written')
    for const, name in (('e', "'e'"), ('zeta', "'zeta'"), ('feig', "'feig, %d' % i")):
        for op in ('generate', 'use', 'expand'):
            for only in (True, False):
                ck.same('%s/%s%s' % (const, op, ', table only' if only else ''), ck.interp(), SRC.replace('%(const)r', repr(const)).replace('%(op)r', repr(op)).replace('%(name)s', name), args(only), given=b_and(le(K(2), sym('i', 'int')), le(sym('i', 'int'), K(3))),
                        rule='exported = third refinement of second refinement of ... of the clicks found')
