"""C26: a configuration that the program writes down reads back as the configuration it stands for."""
from engine.terms import *
from checks.ini import HEAD
from checks.c25 import BASE

MIN = 70

KEYS = [k for k in BASE if k not in ('hashtable_file',)]

SEARCH = HEAD + '''
        BASE = %(base)r
        import enum_params, latex, main, os
        from enum_params import MITM
        def nothing(self, *a, **k):
            self.dec_hashtable = {}
            return []
        for n in ('__init__', 'redefine_settings', 'build_hashtable', 'find_clicks', 'reset_hashtable', 'refine_clicks_with_const_num_of_iters',
                  'refine_clicks_with_convergence_info', 'filter_uniq_params', 'filter_pos_integer_roots_numerators', 'filter_only_exp_convergence',
                  'filter_clicks_by_approach_type', 'get_filtered_params', 'export_to_csv', 'get_results_as_eqns'):
            setattr(MITM, n, nothing)
        main.generate_latex = lambda *a, **k: None
        stub('pickle.dump', lambda obj, f, *a, **k: None)
        stub('pickle.load', lambda f: MITM())
        stub('time.strftime', lambda *a: 'now')
        stub('os.path.isdir', lambda p: False)
        stub('os.path.exists', lambda p: False)
        stub('os.mkdir', lambda p, *a, **k: None)
        stub('os.makedirs', lambda p, *a, **k: None)
        DIRS['tables'] = ['Big_v4.pkl']
        def original(n, m, k):
            o = dict(BASE)
            o[%(key)r] = %(text)s
            FILES['the.ini'] = {'Setup': o}
            return ConfigParser(configfile='the.ini').get_config()
        def code(n, m, k):
            original(n, m, k)
            main.main('the.ini')
            w = [f for f in FILES if f != 'the.ini']
            out('files', w)
            c = ConfigParser(configfile=w[0]).get_config()
            for x in %(keys)r:
                out(x, c[x])
            out('table', c['hashtable_file'])
        def spec(n, m, k):
            c = original(n, m, k)
            out('files', [os.path.join(os.path.join('results', 'now'), 'config.ini')])
            for x in %(keys)r:
                out(x, c[x])
            out('table', %(table)s)
'''

PARTS = HEAD + '''
        BASE = %(base)r
        import distribute_run, os
        stub('os.path.isdir', lambda p: False)
        stub('os.path.exists', lambda p: False)
        stub('os.mkdir', lambda p, *a, **k: None)
        stub('os.makedirs', lambda p, *a, **k: None)
        def original(n, m, k):
            o = dict(BASE)
            o[%(key)r] = %(text)s
            FILES['dir/the.ini'] = {'Setup': o}
            return ConfigParser(configfile='dir/the.ini').get_config()
        def code(n, m, k):
            original(n, m, k)
            distribute_run.main(%(parts)d, 'dir/the.ini')
            w = [f for f in FILES if f != 'dir/the.ini']
            out('files', sorted(w))
            for f in w:
                c = ConfigParser(configfile=f).get_config()
                for x in %(keys)r:
                    out(f + '/' + x, c[x])
                out(f + '/textual', c['postproc_funcs_filter_textual'])
        def spec(n, m, k):
            c = original(n, m, k)
            w = ['dir/the_dist_%(parts)d/the_' + str(i) + '.ini' for i in range(%(parts)d)]
            out('files', w)
            for f in w:
                for x in %(keys)r:
                    out(f + '/' + x, c[x])
                out(f + '/textual', c['postproc_funcs_filter_textual'])
'''

CASES = [('i', 'str(n)'), ('hashtable_num_of_iterations', 'str(n)'), ('hashtable_precision', 'str(n)'), ('first_filtering_num_of_iterations', 'str(n)'),
         ('first_filtering_precision', 'str(n)'), ('second_filtering_max_num_of_iterations', 'str(n)'), ('second_filtering_precision', 'str(n)'),
         ('third_filtering_max_num_of_iterations', 'str(n)'), ('third_filtering_precision', 'str(n)'),
         ('a_coeffs_range', "'[[[%d, %d], [%d, 7]]]' % (n, m, k)"), ('a_coeffs_range', "'[[[%d, %d]], [[%d, 7], [-1, 2]]]' % (n, m, k)"),
         ('b_coeffs_range', "'[[[%d, %d], [%d, 7]]]' % (n, m, k)"),
         ('lhs_params', "'[%d, %d, %d, 7]' % (n, m, k)"), ('lhs_params', "'[[[%d, %d]], [[%d, 7], [0, 1]], 4]' % (n, m, k)"), ('lhs_params', "'none'"),
         ('ab_polys_special_params', "'[%d, %d]' % (n, m)"), ('ab_polys_special_params', "'none'"),
         ('lhs_type', "'rationalfunc'"), ('lhs_type', "'ulcd'"), ('ab_polys_type', "'normal'"), ('ab_polys_type', "'indexed'"), ('ab_polys_type', "'sparse'"),
         ('is_test', "'false'"), ('is_test', "'true'"), ('print_surprising_nonexp_contfracs', "'true'"), ('validate_hashtable_extend_no_replication', "'false'"),
         ('const', "'e'"), ('const', "'zeta'"), ('const', "'feig'"),
         ('postproc_funcs_filter', "'[]'"), ('postproc_funcs_filter', "'[\"safe_sqrt\", \"lambda x: x\", \"lambda x: safe_inverse(dec_sin(x))\"]'"),
         ('postproc_funcs_filter', "'[\"lambda x: safe_inverse(x**3)\", \"safe_inverse\"]'")]

NAMES = ['lambda x: x', 'lambda x: x**2', 'lambda x: safe_inverse(x**2)', 'lambda x: safe_inverse(x**5)', 'safe_sqrt', 'lambda x: dec_cos(x)']
CASES += [('postproc_funcs_filter', repr('["%s"]' % x)) for x in NAMES]

def run(ck):
    n, m, k = sym('n', 'int'), sym('m', 'int'), sym('k', 'int')
    for key, text in CASES:
        for op, only, table in (('use', 'false', "'tables/Big_v4.pkl'"), ('generate', 'false', None), ('expand', 'false', None), ('use', 'auto', "'tables/Big_v4.pkl'")):
            if op != 'use' and key not in ('i', 'a_coeffs_range', 'lhs_type', 'lhs_params') or only == 'auto' and key != 'i':
                continue
            d = dict(BASE, hashtable_file_operation=op, gen_hashtable_only=only)
            s = SEARCH % {'base': d, 'key': key, 'text': text, 'keys': KEYS, 'table': table}
            if table is None:
                s = s.replace("            out('table', c['hashtable_file'])\n", '').replace("            out('table', None)\n", '')
            ck.same('search, %s, tables only %s: %s = %s' % (op, only, key, text), ck.interp(), s, [n, m, k],
                    rule='the configuration stored with the results is the one that was searched')
    for key, text in CASES:
        if key not in ('a_coeffs_range', 'b_coeffs_range'):
            rest = [x for x in KEYS if x not in ('a_coeffs_range', 'b_coeffs_range')]
            for parts in (2, 4) if key in ('i', 'postproc_funcs_filter') else (2,):
                for op in ('generate', 'use') if key == 'i' else ('generate',):
                    ck.same('%d parts, %s: %s = %s' % (parts, op, key, text), ck.interp(),
                            PARTS % {'base': dict(BASE, hashtable_file_operation=op, a_coeffs_range='[[[-1, 7], [2, 9]]]'), 'key': key, 'text': text, 'keys': rest, 'parts': parts}, [n, m, k],
                            rule='a part of a distributed run has the settings of the whole')
