"""C20: an interrupted or failing stage loses none of the clicks found before it, and the results are saved all the same."""
from engine.terms import *
from checks import pipeline

MIN = 12

RUN = pipeline.HEAD + '''
        def code(''' + pipeline.PARAMS + '''):''' + pipeline.CONFIG + '''
            OPT['stop'], OPT['exc'] = %(stop)r, %(exc)s
            propagated = False
            try:
                go(config, now, have)
            except %(exc)s:
                propagated = True
            out('propagated', propagated)
            out('exported', [x[:3] for x in LOG if x[0] == 'csv'])
            out('equations', [x for x in LOG if x[0] == 'pdf'])
            out('config', [x for x in LOG if x[0] == 'config'])
        def spec(''' + pipeline.PARAMS + '''):
            table = [('stored', hashtable_file)]
            T = gen_consts.gen_e_const()
            clicks = [('find', enum, eval_, lhs_params, table, T), ('refine', first_filtering_precision, first_filtering_num_of_iterations), ('uniq',), ('exp',),
                      ('type', ['exp', 'super_exp'], None), ('refine*', second_filtering_precision, second_filtering_max_num_of_iterations)]
            third = [('refine*', third_filtering_precision, third_filtering_max_num_of_iterations)]
            clicks = clicks + {'refine 1': [], 'uniq 2': third, 'roots': third + [('uniq',)], 'pdf': third + [('uniq',), ('roots',)]}.get(%(stop)r, [])
            d = os.path.join('results', 'd' + now + 'x')
            saved = %(saved)s
            out('propagated', %(prop)s)
            out('exported', [('csv', os.path.join(d, 'results') + '.csv', clicks)] if saved else [])
            out('equations', [('pdf', os.path.join(d, 'results'), [('eqns', clicks, postprocfuncs.POSTPROC_FUNCS, 'e')])] if saved else [])
            out('config', [('config', os.path.join(d, 'config.ini'))] if saved and not %(prop)s else [])
'''
STAGE = '''
        import enum_params
        from enum_params import MITM
        from cont_fracs import ContFrac
        from mpmath import mpf
        from verif_out import out, stub
        class Enum:
            def __init__(self, **kw):
                pass
        class Stop(Exception):
            pass
        CNT = [0]
        def tick():
            CNT[0] += 1
            if CNT[0] == %(at)d:
                raise %(exc)s
        class LHS:
            def __init__(self, i, v):
                self.i, self.v, self.sign, self.added, self.canon = i, v, 1, 0, 0
            def get_val(self):
                return self.v
            def flip_sign(self):
                self.sign = -self.sign
            def add_int(self, i):
                self.added = i
            def canonalize_params(self):
                self.canon = 1
            @staticmethod
            def is_equiv(p, q):
                tick()
                return p[1].v == q[1].v
            def is_degenerate(self):
                return False
        def pp(x):
            tick()
            return x
        def gen(self, *a, **k):
            tick()
            self.params = a
        def estimate(self, *a, **k):
            tick()
            self.set_approach_type_and_params(('exp', (2, 3)))
        def fast(self, *a, **k):
            tick()
            return True
        def code(A, B, v, f, info):
            m = MITM(target_generator=lambda: mpf(1), ab_poly_class=Enum, postproc_funcs=[lambda x: x], postproc_funcs_filter=[0])
            m.postproc_funcs = [pp, pp, pp]
            %(patch)s
            before = [((A[i], B[i]), LHS(i, v[i]), i, info[i]) for i in range(3)]
            m.filtered_params = list(before)
            stopped = False
            try:
                m.%(call)s
            except %(exc)s:
                stopped = True
            out('stopped', stopped)
            out('clicks', [(ab, l.i, k, c) for ab, l, k, c in m.get_filtered_params()])
        def spec(A, B, v, f, info):
            MITM(target_generator=lambda: mpf(1), ab_poly_class=Enum)
            out('stopped', True)
            out('clicks', [((A[i], B[i]), i, i, info[i]) for i in range(3)])
'''

def run(ck):
    n = b_and(lt(sym('second_filtering_precision', 'int'), sym('third_filtering_precision', 'int')), le(K(2), sym('i', 'int')), le(sym('i', 'int'), K(3)))
    for stop, exc, saved, prop in (('refine 1', 'KeyboardInterrupt', True, False), ('uniq 2', 'KeyboardInterrupt', True, False), ('roots', 'KeyboardInterrupt', True, False),
                                   ('pdf', 'Stop', True, True), ('refine 0', 'KeyboardInterrupt', False, True), ('first', 'KeyboardInterrupt', False, True),
                                   ('find', 'KeyboardInterrupt', False, True), ('refine 1', 'Stop', False, True)):
        src = RUN
        for k, x in (('%(const)r', "'e'"), ('%(op)r', "'use'"), ('%(stop)r', repr(stop)), ('%(exc)s', exc), ('%(saved)s', str(saved)), ('%(prop)s', str(prop))):
            src = src.replace(k, x)
        ck.same('search/%s in %s' % (exc, stop), ck.interp(), src, pipeline.args(False), given=n,
                rule='the last refinement can be interrupted: the clicks of the last finished stage are exported')
    A, B = (mk_seq('list', [unit(mk_seq('list', [unit(mk_seq('list', [unit(sym('%s%d%d' % (c, i, j), 'int')) for j in range(2)]))])) for i in range(3)]) for c in 'ab')
    a = [A, B] + [mk_seq('list', [unit(sym('%s%d' % (c, i), s)) for i in range(3)]) for c, s in (('v', 'num'), ('f', 'int'), ('info', '?'))]
    for what, call, patch, ats in (
            ('refine', 'refine_clicks_with_const_num_of_iters(5, 1)', 'pass', (1, 2, 3)),
            ('refine with convergence information', 'refine_clicks_with_convergence_info(5, 2)', 'ContFrac.gen_iterations = gen; ContFrac.get_result = lambda self: mpf(2)', (1, 2, 4)),
            ('unique', 'filter_uniq_params()', 'pass', (1,)),
            ('exponential', 'filter_only_exp_convergence()', 'ContFrac.is_convergence_fast = fast', (1, 2, 3)),
            ('approach type', "filter_clicks_by_approach_type(whitelist=['poly2sympoly'])", 'ContFrac.estimate_approach_type_and_params = estimate', (1, 2, 3))):
        for at in ats:
            for exc in ('KeyboardInterrupt', 'Stop') if what != 'approach type' else ('KeyboardInterrupt',):
                ck.same('%s/%s at operation %d' % (what, exc, at), ck.interp(), STAGE % {'at': at, 'exc': exc, 'call': call, 'patch': patch}, a,
                        rule='a stage that does not finish leaves the list of clicks as it was')
