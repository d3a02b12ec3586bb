"""Obligations, verdicts, evidence."""
import os, sys, json, time, traceback, ast, threading, ctypes
sys.setrecursionlimit(60000)
from . import terms as tm, feasible
from .terms import *
from .terms import _intern, Unsupported
from . import interp as ip
from .interp import Interp, State, N, obj, regobj, WORLD, OST, bi
from . import models as md, text

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))

TOTAL = float(os.environ.get('VERIF_TOTAL_S', '680'))     # seconds after which the remaining obligations are given up
ONE_S = float(os.environ.get('VERIF_ONE_S', '200'))         # seconds for one obligation

FEAS = 240.0

class OutOfTime(BaseException):
    pass

class limited:
    """ends the computation of this thread by OutOfTime after so many seconds"""
    def __init__(self, seconds):
        self.seconds = seconds
    def fire(self):
        with self.lock:
            if not self.done:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.id), ctypes.py_object(OutOfTime))
                self.timer = threading.Timer(3, self.fire)      # again, should the first one get lost in a callback
                self.timer.daemon = True
                self.timer.start()
    def __enter__(self):
        self.lock, self.done, self.id = threading.Lock(), False, threading.get_ident()
        self.timer = threading.Timer(self.seconds, self.fire)
        self.timer.daemon = True
        self.timer.start()
    def __exit__(self, *a):
        try:
            with self.lock:
                self.done = True
        finally:
            self.done = True
        self.timer.cancel()
        return False

class Missing(Exception):
    """an anchor of the property is not in the source any more"""

OPAQUE_X = {'fold', 'while'}
OPAQUE_A = ('ext:', 'call', 'rec:', 'star', 'partial?', 'proj', 'exit', 'retval', 'slicestep', 'popped', 'removed', 'eval', 'getattr',
            'lost', 'cyclic', 'mut:', 'extm:', 'm:', 'attr', 'kw:', 'raises', 'splice?', 'dropwhile', 'takewhile', 'power_set', 'product*',
            'isinstance', 'hasattr', 'copyof', 'type', 'getitem', 'unknown')

STRUCT = ('proj', 'exit', 'retval', 'cyclic', 'lost', 'long loop')
SEMI = set()        # operations known only through a few laws (set by a check)

def structural(m):
    return m in OPAQUE_X or m.startswith(STRUCT)

def markers(t):
    """names of the operations in t that the engine does not interpret"""
    out, seen, work = set(), set(), [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'x' and (x.args[0] in OPAQUE_X or isk(x.args[1], 'num')):
            out.add(x.args[0] if x.args[0] in OPAQUE_X else 'long loop')
        elif x.op == 'a' and x.args[0].startswith(OPAQUE_A):
            nm = x.args[0]
            if nm == 'call' and x.args[1].op == 's':
                work += kids(x)     # a function given by the driver
                continue
            if nm == 'raises' or nm == 'kw:':
                nm += show(x.args[1], 1)
            if nm == 'call':
                nm += show(x.args[1], 2)
            out.add(nm)
        elif x.op == 'a' and x.args[0] in SEMI:
            out.add('%s#%d' % (x.args[0], x.id))     # known only through a few laws: comparable only when the definition has the same term
        work += kids(x)
    return out

def kids(x):
    op, a = x.op, x.args
    if op == 'a':
        return list(a[1:])
    if op == 'p':
        return [b for m, c in a for b, e in m]
    if op == 'n':
        return [c for _, c in a[2]] + [a[1]]
    if op == 'q':
        return list(a[1])
    if op in ('u', 'sp', 'set'):
        return [a[0]]
    if op == 'x':
        return [a[1]] + list(a[2]) + list(a[3])
    if op == 'st':
        return list(a)
    if op == 'map':
        return ([a[0]] if a[0] is not None else []) + [v for k, v in a[1]] + [k for k, v in a[1]]
    if op == 'inst':
        return list(a[2])
    if op == 'ctl':
        return [a[1]] if a[1] is not None else []
    return []

def size(t, cap=4000):
    seen, work = set(), [t]
    while work and len(seen) < cap:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        work += kids(x)
    return len(seen)

def diff(a, b, depth=0):
    """smallest pair of differing subterms reached by a simultaneous descent"""
    if a is b:
        return None
    if depth > 60 or a.op != b.op:
        return a, b
    op = a.op
    ka, kb = None, None
    if op == 'a':
        if a.args[0] == b.args[0] and len(a.args) == len(b.args):
            ka, kb = a.args[1:], b.args[1:]
    elif op == 'n':
        if a.args[0] == b.args[0] and a.args[1] is b.args[1] and [l for l, _ in a.args[2]] == [l for l, _ in b.args[2]]:
            ka, kb = [c for _, c in a.args[2]], [c for _, c in b.args[2]]
        elif a.args[0] == b.args[0] and len(a.args[2]) == len(b.args[2]) and all(
                x is y for (_, x), (_, y) in zip(a.args[2], b.args[2])):
            ka, kb = [a.args[1]], [b.args[1]]
    elif op == 'q':
        if a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
            ka, kb = a.args[1], b.args[1]
    elif op in ('u', 'sp', 'set'):
        ka, kb = [a.args[0]], [b.args[0]]
    elif op == 'x':
        if a.args[0] == b.args[0] and len(a.args[2]) == len(b.args[2]) and len(a.args[3]) == len(b.args[3]) and tm._level[a] == tm._level[b]:
            ka = [a.args[1]] + list(a.args[2]) + list(a.args[3])
            kb = [b.args[1]] + list(b.args[2]) + list(b.args[3])
    elif op == 'st':
        if len(a.args) == len(b.args):
            ka, kb = a.args, b.args
    elif op == 'map':
        if [k for k, _ in a.args[1]] == [k for k, _ in b.args[1]] and a.args[0] is b.args[0]:
            ka, kb = [v for _, v in a.args[1]], [v for _, v in b.args[1]]
    elif op == 'inst':
        if a.args[:2] == b.args[:2]:
            ka, kb = a.args[2], b.args[2]
    elif op == 'ctl' and a.args[0] == b.args[0] and a.args[1] is not None and b.args[1] is not None:
        ka, kb = [a.args[1]], [b.args[1]]
    if ka is None:
        return a, b
    ds = [(x, y) for x, y in zip(ka, kb) if x is not y]
    if len(ds) != 1:
        return (a, b) if not ds or len(ds) > 3 else diff(*ds[0], depth + 1)
    return diff(*ds[0], depth + 1)

@md.ext('verif_out.out')
def _out(it, args, kwargs):
    """drivers name an observation: its structural value at this point"""
    k, v, l = kval(args[0]), it.freeze(args[1]), b_and(it.st.pc, it.live())
    it.outputs[k] = v if l is TRUE else ite(l, v, it.outputs.get(k, BOT))
    return NONE

@md.ext('verif_out.stub')
def _stub(it, args, kwargs):
    """drivers model an external: stub('dotted.name', function)"""
    f = args[1]
    it.stubs[md.canon(kval(args[0]))] = lambda it, a, k: it.call(f, list(a), dict(k))
    return NONE

@md.ext('verif_out.path')
def _path(it, args, kwargs):
    """the path an open file refers to"""
    return lift(lambda f: f.args[1] if f.op == 'a' and f.args[0] == 'file' else BOT, it.freeze(args[0]))

@md.ext('verif_out.trace')
def _trace(it, args, kwargs):
    """file-system effects so far"""
    return it.channel('$trace:' + kval(args[0]))

class Check:
    def __init__(self, pid, tier='quick', seed=0):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obligations = []      # dicts
        self.analysed = {}
        self.assumptions = []
        self.known = load_known(pid)
        self.violations = []
        self.known_hits = []
        self.stats = {'branches': 0, 'loops': 0, 'calls': 0}
        self.t0 = time.time()
        self.nonce = 0
        self.feas = 0.0            # seconds spent on path feasibility

    # ---- set-up
    def interp(self, *mods):
        it = Interp(REPO)
        for m in mods:
            try:
                it.load(m)
            except FileNotFoundError:
                raise Missing('module %s' % m)
        return it

    def cls(self, it, mod, name):
        fr = it.load(mod)
        v = it.rd(fr, name)
        if v is None or v.op != 'cls':
            raise Missing('class %s.%s' % (mod, name))
        return v

    def name(self, it, mod, name):
        v = it.rd(it.load(mod), name)
        if v is None or v is UNDEF:
            raise Missing('%s.%s' % (mod, name))
        return v

    def ref(self, it, src, fn='ref'):
        """load a reference definition (Python source) and return its function term"""
        self.nonce += 1
        name = 'ref%d' % self.nonce
        old = it.reference_mode, tm.CUR_LOC[0]
        it.reference_mode, tm.CUR_LOC[0] = True, None
        import textwrap
        fr = it.load_source(name, textwrap.dedent(src), '<reference>')
        it.reference_mode, tm.CUR_LOC[0] = old
        return it.rd(fr, fn)

    def same(self, name, it, src, args=(), rule=None, norm=None, keys=None, assume=None, spec='spec', code='code', given=TRUE):
        """obligation: the driver `code` and the definition `spec` (both Python, in src) produce the same value on all args.
        A driver may return a dict with constant string keys to name its observations."""
        ob = {'name': name, 'rule': rule or 'value-number equality with the definition'}
        try:
            self.nonce += 1
            import textwrap
            fr = it.load_source('drv%d' % self.nonce, textwrap.dedent(src), '<driver>')
            tm.CUR_LOC[0] = None
            fc, fs = it.rd(fr, code), it.rd(fr, spec)
        except FileNotFoundError as e:
            raise Missing(str(e))
        except Unsupported as e:
            return self.undecided(ob, 'not interpreted: %s' % e, it)
        return self.equiv(name, it, lambda it: it.call(fc, list(args), {}), lambda it: it.call(fs, list(args), {}), rule=rule, norm=norm,
                          keys=keys, assume=assume, given=given)

    # ---- running
    def run(self, it, thunk, observe=None, reference=False, given=TRUE):
        """run thunk from the current state, return the observations, restore the state"""
        st0 = it.st
        it.st = State(dict(st0.heap), N, given)
        it.handlers, it.wlog, it.origin = [], [], {}
        it.outputs = {}
        old = it.reference_mode
        it.reference_mode = reference
        fs = it.fnstack, it.frame
        try:
            v = thunk(it)
            ctl = it.st.ctl
            it.st.ctl = N
            exc = cond_term(ctl)
            ok = cond_of(ctl, lambda x: x is N)
            out = {}
            if isinstance(v, dict):
                for k, x in v.items():
                    out[k] = it.freeze(x)
            elif v is not None:
                out['result'] = it.freeze(v)
            out.update(it.outputs)
            if observe is not None:
                for k, x in observe(it).items():
                    out[k] = it.freeze(x)
            if ok is not TRUE:
                out = {k: (under(x, ok) if ok is not FALSE else BOT) for k, x in out.items()}
            out['exception'] = exc
            if given is not TRUE:
                out = {k: under(x, given) for k, x in out.items()}
        finally:
            it.st = st0
            it.reference_mode = old
            it.fnstack, it.frame = fs
            tm.CUR_LOC[0] = None
        return out

    def equiv(self, name, it, target, reference, observe=None, keys=None, rule=None, skip=(), norm=None, assume=None, given=TRUE):
        """target and reference (thunks it -> term or dict of terms) have the same normal form"""
        ob = {'name': name, 'rule': rule or 'value-number equality with the definition'}
        left = min(ONE_S, self.t0 + TOTAL - time.time())
        if left <= 0:
            return self.undecided(ob, 'not analysed within the time for the whole check', it)
        saved = it.st, it.reference_mode, it.fnstack, it.frame, it.argstack
        n = len(self.obligations)
        try:
            with limited(left):
                return self.equiv1(ob, name, it, target, reference, observe, keys, skip, norm, assume, given)
        except OutOfTime:
            it.st, it.reference_mode, it.fnstack, it.frame, it.argstack = saved
            tm.CUR_LOC[0] = None
            if len(self.obligations) > n:
                return None
            return self.undecided(ob, 'not analysed within the time for one obligation', it)

    def equiv1(self, ob, name, it, target, reference, observe, keys, skip, norm, assume, given):
        it.touched = set()
        try:
            T1 = self.run(it, target, observe, given=given)
            R1 = self.run(it, reference, observe, reference=True, given=given)
        except Unsupported as e:
            return self.undecided(ob, 'not interpreted: %s' % e, it)
        except RecursionError:
            if os.environ.get('VERIF_DEBUG'): print(''.join(traceback.format_exc().splitlines(True)[-90:-50]))
            return self.undecided(ob, 'analysis depth exceeded', it)
        except Missing:
            raise
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                print("".join(traceback.format_exc().splitlines(True)[-int(os.environ["VERIF_DEBUG"]) * 7:]))
            return self.undecided(ob, 'not interpreted: %s: %s' % (type(e).__name__, str(e)[:200]), it)
        if assume is not None:
            T1 = {k: assume(v) for k, v in T1.items()}
            R1 = {k: assume(v) for k, v in R1.items()}
        if norm is not None:
            T1 = {k: norm(v) for k, v in T1.items()}
            R1 = {k: norm(v) for k, v in R1.items()}
        if it.touched and os.environ.get('VERIF_LOGTOUCH'):
            open(os.environ['VERIF_LOGTOUCH'], 'a').write('%s %s\n' % (self.id if hasattr(self, 'id') else '?', ' '.join(sorted(it.touched))))
        bad = []
        for k in (keys or sorted(set(T1) | set(R1))):
            if k in skip:
                continue
            a, b = T1.get(k, NONE), R1.get(k, NONE)
            if a is not b:
                bad.append((k, a, b))
        self.absorb(it)
        if not bad:
            ob['status'] = 'discharged'
            ob['size'] = sum(size(v) for v in R1.values())
            self.obligations.append(ob)
            return True
        k, a, b = bad[0]
        if os.environ.get('VERIF_DEBUG'):
            for k, a, b in bad:
                print('--- %s / %s' % (name, k))
                print(' target   :', show(a, 14)[:6000])
                print(' reference:', show(b, 14)[:6000])
        reasons, real = set(), None
        for k, a, b in bad:
            ma, mb = markers(a), markers(b)
            # forms of loops the engine could not close: comparable only when both sides have them
            mb = {m for m in mb if m in ma or not structural(m)}
            se = feasible.Search(mb, min(feasible.LIMIT, max(2.0, (FEAS - self.feas) / 4)))
            tf = time.time()
            try:
                r = se.differ(a, b, given)
            except (feasible.Budget, Unsupported) as e:
                reasons.add('path feasibility not decided within its budget')
                continue
            finally:
                self.feas += time.time() - tf
            self.stats['refuted'] = self.stats.get('refuted', 0) + se.refuted
            if r is not None:
                real = k, a, b, r
                break
            reasons |= se.dirty
        if real is None and not reasons:
            ob['status'] = 'discharged'
            ob['size'] = sum(size(v) for v in R1.values())
            ob['note'] = 'normal forms differ on contradictory paths only'
            self.obligations.append(ob)
            return True
        if real is None:
            return self.undecided(ob, 'differs only through operations the analysis does not interpret: %s' % ', '.join(sorted(reasons))[:300], it)
        if it.touched:
            if os.environ.get('VERIF_DEBUG'):
                print('TOUCHED', it.touched)
            return self.undecided(ob, 'a mutable object is handed to an operation without a model: %s' % ', '.join(sorted(it.touched))[:300], it)
        k, a, b, (path, x, y) = real
        if os.environ.get('VERIF_DEBUG') == '3':
            print('PATH', '; '.join('%s in (%s, %s]' % (show(p[1], 8), p[3], p[2]) for p in path)[:3000])
            print('  found   ', show(x, 8)[:1500])
            print('  required', show(y, 8)[:1500])
        loc = find_loc(x) or find_loc(a)
        return self.violate(ob, '%s of %s differs from the definition: found %s, required %s' % (k, name, show(x, 6)[:400], show(y, 6)[:400]), loc)

    def require(self, name, cond, message, loc=None, rule=None, undecided=None):
        """a derived fact (python bool, or a diagram that must be TRUE)"""
        ob = {'name': name, 'rule': rule or 'structural obligation'}
        if undecided:
            return self.undecided(ob, undecided, None)
        if cond is True or cond is TRUE:
            ob['status'] = 'discharged'
            self.obligations.append(ob)
            return True
        return self.violate(ob, message, loc)

    def undecided(self, ob, why, it):
        if it is not None:
            self.absorb(it)
        ob['status'] = 'undecided'
        ob['why'] = why
        self.obligations.append(ob)
        return None

    def violate(self, ob, message, loc):
        ob['status'] = 'violated'
        ob['message'] = message
        if loc:
            ob['where'] = '%s:%s in %s' % (os.path.relpath(str(loc[0]), REPO) if str(loc[0]).startswith('/') else loc[0], loc[1], loc[2])
        self.obligations.append(ob)
        for kf in self.known:
            if kf.get('obligation') == ob['name'] and (kf.get('where') is None or kf['where'] in ob.get('where', '')) and \
                    (kf.get('contains') is None or kf['contains'] in message):
                self.known_hits.append((kf, ob))
                ob['status'] = 'known-finding'
                return None
        self.violations.append(ob)
        return False

    def absorb(self, it):
        self.analysed.update(it.analysed)
        self.stats['branches'] += it.nbranch
        self.stats['loops'] += it.nloop
        self.stats['calls'] += it.ncall
        it.nbranch = it.nloop = it.ncall = 0

    # ---- verdict
    def finish(self, min_obligations=1, title=''):
        os.makedirs(EVID, exist_ok=True)
        done = [o for o in self.obligations if o['status'] == 'discharged']
        und = [o for o in self.obligations if o['status'] == 'undecided']
        vio = self.violations
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
              'coverage': {
                  'explanation': 'Gated value-flow analysis (global value numbering) of the current source: each obligation compares the normal '
                                 'form of what the code computes, for every input, with the normal form of its definition, or decides a '
                                 'structural rule on the value-flow graph.  No code is executed and no solver is used.',
                  'obligations': len(self.obligations), 'discharged': len(done), 'undecided': len(und), 'violated': len(vio),
                  'known_findings': len(self.known_hits),
                  'functions_analysed': sorted('%s:%s %s' % (os.path.basename(p), l, q) for q, (p, l) in self.analysed.items() if not str(p).startswith('<')),
                  'branches_merged': self.stats['branches'], 'loops_closed': self.stats['loops'], 'call_sites': self.stats['calls'],
                  'rules': self.obligations},
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(vio),
              'assumptions': self.assumptions + [
                  'mpmath numbers are treated as exact reals; library calls without a model are uninterpreted pure functions',
                  'an obligation listed as undecided is not covered by this run']}
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for kf, ob in self.known_hits:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, kf.get('text', ob['message']))[:500])
        for o in und:
            print('undecided: %s: %s' % (o['name'], o['why'][:300]))
        if len(self.obligations) < min_obligations:
            print('ERROR: only %d obligations were generated (expected at least %d)' % (len(self.obligations), min_obligations))
            return 2
        print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)' % (
            self.pid, len(self.obligations), len(done), len(und), len(vio), time.time() - self.t0))
        if vio:
            os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
            rp = os.path.join(EVID, 'replay', self.pid + '.txt')
            with open(rp, 'w') as f:
                for o in vio:
                    f.write('%s\n  where: %s\n  rule : %s\n  %s\n\n' % (o['name'], o.get('where', '?'), o['rule'], o['message']))
            for o in vio:
                print('  violated: %s\n    at %s\n    %s' % (o['name'], o.get('where', '?'), o['message'][:900]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0

def is_mpf(*xs):
    """condition: the symbols are mpmath numbers"""
    return b_and(*[cond_of(app('isinstance', x, bi('mpmath.mpf')), lambda v: v is TRUE) for x in xs])

def cond_term(ctl):
    """name of the exception that escapes, None when there is none"""
    def f(x):
        if x is N or x.args[0] != 'raise':
            return NONE
        e = x.args[1]
        if e.op == 'a' and e.args[0] == 'exc':
            return e.args[1]
        return K('Exception')
    return lift(f, ctl) if ctl is not N else NONE

def find_loc(t):
    """source location of the innermost subterm created by the analysed source"""
    seen, work, best = set(), [t], None
    while work:
        x = work.pop(0)
        if x in seen:
            continue
        seen.add(x)
        if x.loc is not None and x.op not in ('k',) and not str(x.loc[0]).startswith('<'):
            return x.loc
        work += kids(x)
        if len(seen) > 3000:
            break
    return best

def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status', 'open') == 'open':
                    out.append(d)
    return out

def main(argv):
    import importlib
    pid = argv[1]
    tier = 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    ck = Check(pid, tier, seed)
    mod = importlib.import_module('checks.' + pid.lower())
    try:
        mod.run(ck)
    except Missing as e:
        ck.undecided({'name': 'the rest of the check', 'rule': 'the anchors of the property exist'}, 'anchor missing: %s' % e, None)
        return ck.finish(0)
    except Exception as e:
        import traceback
        traceback.print_exc()
        ck.undecided({'name': 'the rest of the check', 'rule': 'the analysis completes'}, 'not analysed: %s: %s' % (type(e).__name__, str(e)[:200]), None)
        return ck.finish(0)
    return ck.finish(getattr(mod, 'MIN', 1))
