"""C25: a configuration file is read as the values it spells, with the documented defaults, and rejected when it spells nothing sensible."""
from engine.terms import *
from checks.ini import HEAD

MIN = 150

def refusal(v):
    """any error refuses"""
    return lift(lambda x: K('refused') if isk(x, 'str') and kval(x).endswith('Error') else x, v)

BASE = {'const': 'PI', 'ab_polys_type': 'normal', 'ab_polys_special_params': 'none', 'print_surprising_nonexp_contfracs': 'False', 'gen_hashtable_only': 'auto',
        'a_coeffs_range': '[[[-1, 2]]]', 'b_coeffs_range': '[[[-1, 2]]]', 'lhs_type': 'ulcd', 'lhs_params': '[1, 2, 3, 4]', 'postproc_funcs_filter': '["safe_inverse"]',
        'hashtable_file_operation': 'generate', 'hashtable_file': 'tables/Big.pkl', 'hashtable_num_of_iterations': '200', 'hashtable_precision': '8',
        'first_filtering_num_of_iterations': '1000', 'first_filtering_precision': '10', 'second_filtering_max_num_of_iterations': '1200', 'second_filtering_precision': '13',
        'third_filtering_max_num_of_iterations': '1500', 'third_filtering_precision': '20', 'i': '3', 'is_test': 'true', 'validate_hashtable_extend_no_replication': 'true'}

ONE_ = HEAD + '''
        BASE = %(base)r
        def code(n, m, k):
            o = dict(BASE)
            o[%(key)r] = %(text)s
            FILES['the.ini'] = {'Setup': o}
            try:
                c = ConfigParser(configfile='the.ini').get_config()
            finally:
                out('read', True)
            out('value', c[%(key)r])
            out('others', [(x, c[x]) for x in ('const', 'hashtable_precision', 'third_filtering_precision', 'a_coeffs_range') if x != %(key)r])
        def spec(n, m, k):
            out('read', True)
            %(raise_)s
            out('value', %(value)s)
            out('others', [x for x in (('const', 'pi'), ('hashtable_precision', 8), ('third_filtering_precision', 20), ('a_coeffs_range', [[[-1, 2]]])) if x[0] != %(key)r])
'''


LITERAL = HEAD + """
        BASE = %(base)r
        def code(n, m, k):
            FILES['the.ini'] = {'Setup': dict(BASE, **{%(key)r: %(text)s})}
            c = ConfigParser(configfile='the.ini').get_config()
            out('read', True)
            out('value', c[%(key)r])
        def spec(n, m, k):
            %(raise_)s
            out('read', True)
            out('value', %(value)s)
"""

WHOLE = HEAD + """
        BASE = %(base)r
        import postprocfuncs, enum_poly_params, lhs_evaluators
        def code():
            o = dict(BASE)
            for x in %(drop)r:
                del o[x]
            FILES['the.ini'] = {%(sections)s}
            c = ConfigParser(configfile='the.ini').get_config()
            out('keys', sorted(c.keys()))
            for x in sorted(c.keys()):
                if x != 'hashtable_file' and x != 'hashtable_output_file':
                    out(x, c[x])
        def spec():
            r = {'const': 'pi', 'ab_polys_type': enum_poly_params.AB_POLYS_TYPES['normal'], 'ab_polys_special_params': None, 'print_surprising_nonexp_contfracs': False,
                 'gen_hashtable_only': %(only)s, 'a_coeffs_range': [[[-1, 2]]], 'b_coeffs_range': [[[-1, 2]]], 'lhs_type': lhs_evaluators.LHS_TYPES['ulcd'], 'lhs_params': [1, 2, 3, 4],
                 'postproc_funcs_filter': [0], 'postproc_funcs_filter_textual': ['safe_inverse'], 'hashtable_file_operation': %(op)r, 'hashtable_num_of_iterations': 200,
                 'hashtable_precision': 8, 'first_filtering_num_of_iterations': 1000, 'first_filtering_precision': 10, 'second_filtering_max_num_of_iterations': 1200,
                 'second_filtering_precision': 13, 'third_filtering_max_num_of_iterations': 1500, 'third_filtering_precision': 20, 'i': 3, 'is_test': True,
                 'validate_hashtable_extend_no_replication': True}
            for x in %(drop)r:
                r[x] = {'i': 0, 'is_test': False, 'validate_hashtable_extend_no_replication': True}.get(x)
            r['postproc_funcs_filter'] = [postprocfuncs.POSTPROC_FUNCS.index('safe_inverse')]
            r['hashtable_file'] = r['hashtable_output_file'] = None
            out('keys', sorted(r.keys()))
            for x in sorted(r.keys()):
                if x != 'hashtable_file' and x != 'hashtable_output_file':
                    out(x, r[x])
"""

def run(ck):
    n, m, k = sym('n', 'int'), sym('m', 'int'), sym('k', 'int')
    INTS = ('i', 'hashtable_num_of_iterations', 'hashtable_precision', 'first_filtering_num_of_iterations', 'first_filtering_precision',
            'second_filtering_max_num_of_iterations', 'second_filtering_precision', 'third_filtering_max_num_of_iterations', 'third_filtering_precision')
    BOOLS = ('print_surprising_nonexp_contfracs', 'is_test', 'validate_hashtable_extend_no_replication')
    RANGES = ('a_coeffs_range', 'b_coeffs_range', 'lhs_params', 'ab_polys_special_params')
    cases = []
    for key in INTS:
        cases += [(key, "str(n)", 'n'), (key, "' %d ' % n", 'n'), (key, "'none'", 'None'), (key, "'None'", 'None'), (key, "'12x'", None), (key, "'1.5'", None), (key, "''", None)]
    for key in BOOLS:
        cases += [(key, repr(t), t.strip().lower() == 'true') for t in ('true', 'True', 'TRUE', 'false', 'False', 'FALSE')]
        cases += [(key, repr(t), None) for t in ('yes', '1', '0', '', 'truefalse')]
    for key in RANGES:
        cases += [(key, "'[[[%d, %d], [%d, 7]]]' % (n, m, k)", '[[[n, m], [k, 7]]]'), (key, "'[%d,%d, %d]' % (n, m, k)", '[n, m, k]'),
                  (key, "'[[[%d, %d]], [[%d, %d], [-1, %d]]]' % (n, m, k, n, m)", '[[[n, m]], [[k, n], [-1, m]]]'), (key, "'[]'", '[]'), (key, "'NONE'", 'None'),
                  (key, "'[[1, 2]'", None), (key, "'(1, 2)'", None), (key, "''", None)]
    cases += [('const', repr(t), repr(v)) for t, v in (('pi', 'pi'), (' E ', 'e'), ('Zeta', 'zeta'), ('Feigenbaum', 'feigenbaum'), ('none', None))]
    cases += [('ab_polys_type', repr(t), 'enum_poly_params.AB_POLYS_TYPES[%r]' % v) for t, v in (('normal', 'normal'), ('Indexed', 'indexed'), (' SPARSE', 'sparse'))]
    cases += [('ab_polys_type', repr(t), None) for t in ('dense', 'normal1', '')]
    cases += [('lhs_type', repr(t), 'lhs_evaluators.LHS_TYPES[%r]' % v) for t, v in (('ulcd', 'ulcd'), ('ULCD', 'ulcd'), ('RationalFunc ', 'rationalfunc'))]
    cases += [('lhs_type', repr(t), None) for t in ('ul', 'rational', '')]
    cases += [('gen_hashtable_only', "'true'", 'True'), ('gen_hashtable_only', "'False'", 'False'), ('gen_hashtable_only', "'AUTO'", 'True')]
    cases += [('hashtable_file_operation', repr(t), repr(t.strip().lower())) for t in ('generate', 'Expand', 'USE ')]
    cases += [('hashtable_file_operation', repr(t), None) for t in ('generat', 'create', '', 'none')]
    cases += [('postproc_funcs_filter', repr(t), v) for t, v in (
        ('["safe_inverse"]', '[postprocfuncs.POSTPROC_FUNCS.index("safe_inverse")]'), ('[]', '[]'),
        ('["sin", "lambda x: x", "safe_sqrt"]', None),
        ('["nothing"]', None), ('["safe_inverse", "nothing"]', None))]
    # options the program does not know: the nearest of number, list, truth value, none, text
    X = 'my_option'
    cases += [(X, "str(n)", 'n'), (X, "' %d ' % n", 'n'), (X, "'1.5'", '1.5'), (X, "'-3e2'", '-300.0'), (X, "'[%d, [%d, %d]]' % (n, m, k)", '[n, [m, k]]'), (X, "'some text'", "'some text'"),
              (X, "'true'", 'True'), (X, "'False'", 'False'), (X, "'None'", 'None'), (X, "'[1, 2'", "'[1, 2'"), (X, "''", "''"), (X, "'12x'", "'12x'")]
    for key, text, value in cases:
        ck.same('%s = %s' % (key, text), ck.interp(), LITERAL.replace('import configfile', 'import configfile, postprocfuncs, enum_poly_params, lhs_evaluators') % {
            'base': BASE, 'key': key, 'text': text, 'value': value, 'raise_': 'pass' if value is not None else "raise ValueError('refused')"}, [n, m, k], norm=refusal,
            rule='the value in the configuration is the one the text spells; text that spells none is refused')
    every = dict(BASE)
    for op, only in (('generate', 'True'), ('expand', 'True'), ('use', 'False')):
        d = dict(BASE, hashtable_file_operation=op)
        ck.same('everything, %s' % op, ck.interp(), WHOLE % {'base': d, 'drop': [], 'only': only, 'op': op, 'sections': "'Setup': o"}, [],
                rule='every option of the file is in the configuration; auto means tables only, except for use')
    whole = lambda drop, sections="'Setup': o": WHOLE % {'base': every, 'drop': drop, 'only': 'True' if 'gen_hashtable_only' not in drop else 'None', 'op': 'generate', 'sections': sections}
    for drop in (['i'], ['is_test'], ['validate_hashtable_extend_no_replication'], ['i', 'is_test', 'validate_hashtable_extend_no_replication']):
        ck.same('left out: %s' % ', '.join(drop), ck.interp(), whole(drop), [], rule='optional options have their documented defaults')
    for x in INTS + BOOLS + RANGES + ('const', 'ab_polys_type', 'lhs_type', 'gen_hashtable_only'):
        if x not in ('i', 'is_test', 'validate_hashtable_extend_no_replication'):
            ck.same('left out: %s' % x, ck.interp(), whole([x]), [], rule='an option that is not given is None')
    half = sorted(every)[::2]
    ck.same('several sections', ck.interp(), whole([], "'One': {x: o[x] for x in o if x in %r}, 'Two': {x: o[x] for x in o if x not in %r}" % (half, half)), [],
            rule='the options of all sections are read')
    ck.same('capitals', ck.interp(), whole([], "'Setup': {x.upper(): o[x] for x in o}"), [], rule='option names in any case')
    for what, how in (('no file', ''), ('a file that is not there', "configfile='absent.ini'")):
        ck.same(what, ck.interp(), HEAD + """
        def code():
            c = ConfigParser(%s).get_config()
            for x in ('i', 'is_test', 'validate_hashtable_extend_no_replication'):
                out(x, c[x])
            out('keys', sorted(c.keys()))
        def spec():
            out('i', 0)
            out('is_test', False)
            out('validate_hashtable_extend_no_replication', True)
            out('keys', ['i', 'is_test', 'validate_hashtable_extend_no_replication'])
""" % how, [], rule='without a file there are only the defaults')
