"""driver shared by the checks of main.main: the stages of the search are replaced by fakes that record what they were applied to"""
from engine.terms import *

HEAD = '''
        import enum_params, configfile, latex, gen_consts, postprocfuncs, os
        from enum_params import MITM
        from mpmath import mpf
        from verif_out import out, stub, path
        class Stop(Exception):
            pass
        LOG = []
        OPT = {}
        def at(name):
            if OPT.get('stop') == name:
                raise OPT['exc']
        # ---- the search object: a table description and a description of the clicks
        def init(self, target_generator, target_name='', postproc_funcs=None, postproc_funcs_text=None, postproc_funcs_text_inverse=None,
                 postproc_funcs_latex=None, trunc_integer=True, a_poly_size=3, b_poly_size=3, num_of_a_polys=1, num_of_b_polys=1,
                 threshold=None, prec=50, ab_poly_class=None, ab_poly_special_params=None, enum_only_exp_conv=True, num_of_iterations=300,
                 postproc_funcs_filter=None, hashtable_prec=8, **kw):
            self.target_generator, self.target_name = target_generator, target_name
            self.postproc = postproc_funcs, postproc_funcs_text, postproc_funcs_text_inverse, postproc_funcs_latex
            self.settings = [('new', prec, ab_poly_class, ab_poly_special_params, num_of_iterations, postproc_funcs_filter, hashtable_prec, sorted(kw.items()))]
            self.table, self.clicks, self.dec_hashtable = [], None, {}
            at('new')
        def redefine(self, target_generator=None, target_name='', postproc_funcs=None, postproc_funcs_text=None, postproc_funcs_text_inverse=None,
                     postproc_funcs_latex=None, postproc_funcs_filter=None, hashtable_prec=None, ab_poly_class=None, ab_poly_special_params=None,
                     prec=None, num_of_iterations=None, **kw):
            self.target_generator, self.target_name = target_generator, target_name
            self.postproc = postproc_funcs, postproc_funcs_text, postproc_funcs_text_inverse, postproc_funcs_latex
            self.settings = self.settings + [('redefine', prec, ab_poly_class, ab_poly_special_params, num_of_iterations, postproc_funcs_filter, hashtable_prec, sorted(kw.items()))]
        def build(self, range_a=None, range_b=None, **kw):
            self.table = self.table + [('build', list(self.settings), self.target_generator(), self.target_name, range_a, range_b, sorted(kw.items()))]
        def step(self, *what):
            # filters are idempotent, and so is applying the same refinement again
            if self.clicks[-1] != what:
                self.clicks = self.clicks + [what]
        def find(self, lhs_classes, lhs_enumerator_params):
            at('find')
            self.clicks = [('find', lhs_classes['enum'], lhs_classes['eval'], lhs_enumerator_params, list(self.table), self.target_generator())]
        def reset(self):
            self.table = []
        def const_iters(self, accuracy=10, num_of_iterations=3000, print_clicks=False):
            at('first')
            step(self, 'refine', accuracy, num_of_iterations)
        def conv_iters(self, accuracy=10, num_of_iterations=3000, print_clicks=False):
            at('refine %d' % len([s for s in self.clicks if s[0] == 'refine*']))
            step(self, 'refine*', accuracy, num_of_iterations)
        def uniq(self):
            at('uniq %d' % len([s for s in self.clicks if s[0] == 'refine*']))
            step(self, 'uniq')
        def roots(self):
            at('roots')
            step(self, 'roots')
        def exp_only(self, print_surprising_nonexp_contfracs=False):
            step(self, 'exp')
        def by_type(self, whitelist=['exp', 'super_exp', 'fast'], blacklist=None):
            step(self, 'type', list(whitelist), blacklist)
        def get(self):
            return [] if self.clicks is None else list(range(len(self.clicks)))
        def csv_(self, filename):
            at('csv')
            LOG.append(('csv', filename, self.clicks, self.postproc, self.target_name))
        def eqns(self, postproc_funcs, ignore_zerob_exceptions=True, depth=5):
            return [('eqns', self.clicks, postproc_funcs, self.target_name)]
        def pdf(filename, eqns=[]):
            LOG.append(('pdf', filename, list(eqns)))
            at('pdf')
        for n, f in (('__init__', init), ('redefine_settings', redefine), ('build_hashtable', build), ('find_clicks', find), ('reset_hashtable', reset),
                     ('refine_clicks_with_const_num_of_iters', const_iters), ('refine_clicks_with_convergence_info', conv_iters),
                     ('filter_uniq_params', uniq), ('filter_pos_integer_roots_numerators', roots), ('filter_only_exp_convergence', exp_only),
                     ('filter_clicks_by_approach_type', by_type), ('get_filtered_params', get), ('export_to_csv', csv_), ('get_results_as_eqns', eqns)):
            setattr(MITM, n, f)
        latex.generate_latex = pdf
        # ---- the configuration
        P = configfile.ConfigParser
        def p_init(self, configfile=None, *a, **k):
            self._config = dict(OPT['config']) if configfile == 'the.ini' else {}
        P.__init__ = p_init
        P.get_config = lambda self: self._config
        P.add_section = lambda self, s: None
        P.set = lambda self, section, option, value=None: None
        def p_write(self, f, *a, **k):
            LOG.append(('config', path(f)))
        P.write = p_write
        import main
        NAMES = ['const', 'ab_polys_type', 'ab_polys_special_params', 'print_surprising_nonexp_contfracs', 'gen_hashtable_only', 'a_coeffs_range', 'b_coeffs_range',
                 'lhs_type', 'lhs_params', 'postproc_funcs_filter', 'i', 'hashtable_file_operation', 'validate_hashtable_extend_no_replication', 'hashtable_file',
                 'hashtable_num_of_iterations', 'hashtable_precision', 'first_filtering_num_of_iterations', 'first_filtering_precision',
                 'second_filtering_max_num_of_iterations', 'second_filtering_precision', 'third_filtering_max_num_of_iterations', 'third_filtering_precision',
                 'is_test', 'hashtable_output_file']
        STORED = MITM(lambda: 0, target_name='old', num_of_iterations=17)
        def go(config, now, have):
            OPT['config'] = config
            LOG.clear()
            def dump(obj, f, *a, **k):
                p = obj.dec_hashtable['parameters']
                LOG.append(('dump', path(f), obj.table, obj.target_name, (p['target_generator'](), p['target_name'], p['POSTPROC_FUNCS'])))
            stub('pickle.dump', dump)
            def load(f):
                LOG.append(('load', path(f)))
                STORED.table = [('stored', path(f))]
                STORED.target_generator, STORED.target_name, STORED.clicks = (lambda: 0), 'old', None
                STORED.settings = [('stored',)]
                STORED.postproc = 'stored postproc functions'
                return STORED
            stub('pickle.load', load)
            stub('time.strftime', lambda *a: 'd' + now + 'x')
            there = {'results': have}
            def isdir(p):
                return there.get(p, False)
            stub('os.path.isdir', isdir)
            stub('os.path.exists', isdir)
            def mkdir(p, mode=511):
                if isdir(p):
                    raise FileExistsError(p)
                LOG.append(('mkdir', p))
                there[p] = True
            def makedirs(p, mode=511, exist_ok=False):
                if p.startswith('results/') and not isdir('results'):
                    mkdir('results')
                if not (exist_ok and isdir(p)):
                    mkdir(p)
            stub('os.mkdir', mkdir)
            stub('os.makedirs', makedirs)
            main.main('the.ini')
            return list(LOG)
'''

STR = ('hashtable_file', 'hashtable_output_file')
INT = ('i', 'hashtable_num_of_iterations', 'hashtable_precision', 'first_filtering_num_of_iterations', 'first_filtering_precision',
       'second_filtering_max_num_of_iterations', 'second_filtering_precision', 'third_filtering_max_num_of_iterations', 'third_filtering_precision')
ANY = ('ab_polys_type', 'ab_polys_special_params', 'a_coeffs_range', 'b_coeffs_range', 'enum', 'eval', 'lhs_params')
ARGS = 'hashtable_file hashtable_output_file i hashtable_num_of_iterations hashtable_precision first_filtering_num_of_iterations first_filtering_precision ' \
       'second_filtering_max_num_of_iterations second_filtering_precision third_filtering_max_num_of_iterations third_filtering_precision ' \
       'ab_polys_type ab_polys_special_params a_coeffs_range b_coeffs_range enum eval_ lhs_params filter now have only'
CONFIG = '''
            config = {'const': %(const)r, 'ab_polys_type': ab_polys_type, 'ab_polys_special_params': ab_polys_special_params,
                      'print_surprising_nonexp_contfracs': False, 'gen_hashtable_only': only, 'a_coeffs_range': a_coeffs_range, 'b_coeffs_range': b_coeffs_range,
                      'lhs_type': {'enum': enum, 'eval': eval_}, 'lhs_params': lhs_params, 'postproc_funcs_filter': filter, 'i': i,
                      'hashtable_file_operation': %(op)r, 'validate_hashtable_extend_no_replication': True, 'hashtable_file': hashtable_file,
                      'hashtable_num_of_iterations': hashtable_num_of_iterations, 'hashtable_precision': hashtable_precision,
                      'first_filtering_num_of_iterations': first_filtering_num_of_iterations, 'first_filtering_precision': first_filtering_precision,
                      'second_filtering_max_num_of_iterations': second_filtering_max_num_of_iterations, 'second_filtering_precision': second_filtering_precision,
                      'third_filtering_max_num_of_iterations': third_filtering_max_num_of_iterations, 'third_filtering_precision': third_filtering_precision,
                      'is_test': False, 'hashtable_output_file': hashtable_output_file}
'''
PARAMS = ARGS.replace(' ', ', ')

def args(only):
    r = []
    for n in ARGS.split():
        if n in STR or n == 'now':
            r.append(sym(n, 'str'))
        elif n in INT:
            r.append(sym(n, 'int'))
        elif n == 'filter':
            r.append(mk_seq('list', [unit(sym('f%d' % i, 'int')) for i in range(2)]))
        elif n == 'have':
            r.append(sym(n, 'bool'))
        elif n == 'only':
            r.append(TRUE if only is True else FALSE if only is False else sym('only', 'bool'))
        else:
            r.append(sym(n, '?'))
    return r
