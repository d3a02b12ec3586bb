"""Text with integer holes: JSON, regular expressions and number parsing on string templates.

A template is a string whose unknown parts are decimal texts of integers.  The library function is applied to the template with each hole
replaced by a distinct digit string of two different lengths; where both give the same structure, that structure with the holes put back is the result
(a regular expression or a JSON reader that sees a digit run only through digit classes treats all digit runs alike)."""
import json, re
from . import terms as tm, models as md
from .terms import *
from .terms import Unsupported

def I():
    from . import interp
    return interp

def parts(x):
    return x.args if x.op == 'st' else (x,)

def holes(x):
    """(python text, text with holes, table) for both instantiations, or None"""
    if isk(x, 'str'):
        return [(kval(x), {})]
    out = []
    ps = parts(x)
    if not all(isk(p, 'str') or tm.int_text(p) is not None for p in ps):
        return None
    for width in (7, 12):
        s, tab, names = '', {}, {}
        for p in ps:
            if isk(p, 'str'):
                s += kval(p)
                continue
            i = tm.int_text(p)
            if i not in names:
                names[i] = str(98 * 10 ** (width - 2) + 137 * len(names) + 11)
                tab[names[i]] = i
            s += names[i]
        out.append((s, tab))
    # literal text must not contain the placeholders
    return out

def back(v, tab):
    """a python value over the placeholders as a term over the holes"""
    if v is None:
        return NONE
    if isinstance(v, bool):
        return K(v)
    if isinstance(v, int):
        sg = -1 if v < 0 else 1
        if str(abs(v)) in tab:
            return mul(K(sg), tab[str(abs(v))])
        return K(v)
    if isinstance(v, float):
        return K(v)
    if isinstance(v, str):
        if not tab:
            return K(v)
        out = []
        for w in re.split('(%s)' % '|'.join(sorted(tab, key=len, reverse=True)), v):
            if w in tab:
                out.append(fmt(tab[w], ''))
            elif w:
                if re.search('98[0-9]{5}', w):
                    raise Unsupported('placeholder split by the text operation')
                out.append(K(w))
        return strcat(*out) if out else K('')
    if isinstance(v, (list, tuple)):
        return mk_seq('list' if isinstance(v, list) else 'tuple', [unit(back(w, tab)) for w in v])
    if isinstance(v, dict):
        return mk_map(None, {back(k, tab): back(w, tab) for k, w in v.items()})
    raise Unsupported('text value %r' % (v,))

def uniform(x, f):
    """f applied to the template, the same for both instantiations; None when it cannot be done"""
    hs = holes(x)
    if hs is None:
        return None
    rs = [back(f(s), tab) for s, tab in hs]
    if any(r is not rs[0] for r in rs[1:]):
        raise Unsupported('text operation depends on the digits')
    return rs[0]

def nonneg(x):
    return all(isk(p, 'str') or (tm.int_text(p) is not None and is_nonneg(tm.int_text(p))) for p in parts(x))

# ---------------------------------------------------------------- JSON
@md.ext('json.loads')
def _loads(it, args, kwargs):
    def f(x):
        if holes(x) is None or kwargs:
            v = app('ext:json.loads', x)
            it.may_raise(v)
            return v
        try:
            return md.thaw_deep(it, uniform(x, json.loads))
        except json.JSONDecodeError:
            it.raise_if(TRUE, 'json.JSONDecodeError', K('not json'))
            return BOT
    return it.each_leaf(it.freeze(args[0]), f)

def to_json(x):
    if x is NONE:
        return K('null')
    if isk(x, 'bool'):
        return K('true' if x is TRUE else 'false')
    if isk(x, 'str'):
        return K(json.dumps(kval(x)))
    if kind(x) == 'int' or isk(x, 'num'):
        return fmt(x, '')
    if x.op == 'q' and x.args[0] in ('list', 'tuple') and all(p.op == 'u' for p in x.args[1]):
        out = [K('[')]
        for i, p in enumerate(x.args[1]):
            out += [K(', ')] * (i > 0) + [lift(to_json, p.args[0])]
        return strcat(*out, K(']'))
    if x.op == 'map' and x.args[0] is None:
        out = [K('{')]
        for i, (k, v) in enumerate(x.args[1]):
            out += [K(', ')] * (i > 0) + [to_json(k), K(': '), lift(to_json, v)]
        return strcat(*out, K('}'))
    if kind(x) == 'str' or x.op == 'st':
        raise Unsupported('json of symbolic text')
    return app('ext:json.dumps', x)

@md.ext('json.dumps')
def _dumps(it, args, kwargs):
    x = it.freeze(args[0])
    if kwargs:
        return app('ext:json.dumps', x, *it.flat_args([], kwargs))
    return lift(to_json, x)

# ---------------------------------------------------------------- regular expressions
def m_term(m):
    if m is None:
        return None
    return ('match', m)

def re_call(it, fn, pat, x, *rest):
    if not isk(pat, 'str'):
        hs = holes(pat)
        if hs is None or not isk(x, 'str') and fn != 'escape':
            return None
        # a template as pattern: only when it is literal text (an escaped string) around a fixed pattern is it decided, by the same substitution in the text
        return None
    if not nonneg(x):
        return None
    p = kval(pat)
    def f(s):
        if fn in ('match', 'search', 'fullmatch'):
            m = getattr(re, fn)(p, s)
            return None if m is None else [[m.group(0)] + list(m.groups()), m.groupdict(), [m.start(), m.end()] if isk(x, 'str') else [0, 0]]
        if fn in ('findall', 'split'):
            return getattr(re, fn)(p, s, *rest)
        if fn == 'sub':
            return re.sub(p, rest[0], s)
    r = uniform(x, f)
    if r is NONE or fn not in ('match', 'search', 'fullmatch') or r is None:
        return r
    return rawapp('rematch', r)

def _mk(fn):
    def g(it, args, kwargs):
        if kwargs:
            raise Unsupported('re flags')
        A = [it.freeze(a) for a in args]
        if fn == 'sub':
            A = [A[0], A[2], A[1]] + A[3:]
        def f(p, x, *rest):
            try:
                r = re_call(it, fn, p, x, *[kval(z) for z in rest]) if all(isk(z) for z in rest) else None
            except re.error:
                r = None
            if r is None:
                v = app('ext:re.' + fn, p, x, *rest)
                it.may_raise(v)
                return v
            return md.thaw_deep(it, r) if r.op == 'q' else r
        return it.each_leaf(A[0], lambda p: it.each_leaf(A[1], lambda x: f(p, x, *A[2:])))
    return g
for _n in ('match', 'search', 'fullmatch', 'findall', 'split', 'sub'):
    md.EXT['re.' + _n] = _mk(_n)

@md.ext('re.escape')
def _esc(it, args, kwargs):
    def f(x):
        if holes(x) is None:
            return app('ext:re.escape', x)
        return strcat(*[K(re.escape(kval(p))) if isk(p, 'str') else p for p in parts(x)]) if nonneg(x) else app('ext:re.escape', x)
    return lift(f, it.freeze(args[0]))

@md.ext('re.compile')
def _compile(it, args, kwargs):
    if len(args) > 1 or kwargs:
        raise Unsupported('re flags')
    return rawapp('repat', it.freeze(args[0]))

def method(it, x, name, args, kwargs):
    """methods of compiled patterns and of matches"""
    if x.args[0] == 'repat':
        return md.EXT['re.' + name](it, [x.args[1]] + list(args), kwargs) if 're.' + name in md.EXT else None
    groups = x.args[1].args[1][0].args[0]
    if name == 'groups':
        return mk_seq('tuple', groups.args[1][1:])
    if name == 'group':
        i = [kint(a) if kint(a) is not None else kval(a) for a in args] or [0]
        if any(not isinstance(j, int) for j in i):
            d = x.args[1].args[1][1].args[0]
            return dict((kval(k), v) for k, v in d.args[1])[i[0]]
        vs = [groups.args[1][j].args[0] for j in i]
        return vs[0] if len(vs) == 1 else tup(*vs)
    return None

# ---------------------------------------------------------------- numbers
def text_int(x):
    """int(text): a term, 'bad' when no digits in the holes make it a number, None when undecided"""
    ps = [p for p in parts(x)]
    if isk(ps[0], 'str'):
        ps[0] = K(kval(ps[0]).lstrip())
    if isk(ps[-1], 'str'):
        ps[-1] = K(kval(ps[-1]).rstrip())
    ps = [p for p in ps if not (isk(p, 'str') and kval(p) == '')]
    if len(ps) == 1:
        i = tm.int_text(ps[0])
        if i is not None:
            return i
        if isk(ps[0], 'str'):
            try:
                return K(int(kval(ps[0])))
            except ValueError:
                return 'bad'
    if not ps:
        return 'bad'
    if all(isk(p, 'str') or tm.int_text(p) is not None for p in ps):
        if any(isk(p, 'str') and not re.fullmatch('[-+0-9_]*', kval(p)) for p in ps):
            return 'bad'
    return None
def no_float(x):
    """no digits in the holes make the text a number float() reads"""
    ps = list(parts(x))
    if not all(isk(p, 'str') or tm.int_text(p) is not None for p in ps):
        return False
    return len(ps) > 1 and any(isk(p, 'str') and not re.fullmatch(r'[-+0-9_.eE\s]*', kval(p)) for p in ps)
