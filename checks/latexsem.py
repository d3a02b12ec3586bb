"""Reads a LaTeX formula (a string term with symbolic holes) back as the value it denotes."""
import re
from engine.terms import *

class Unreadable(Exception):
    """the text does not denote a formula, or it denotes different ones for different values of a hole"""

class Unknown(Exception):
    """the text uses notation this reader has no meaning for"""

FUN = {'\\sin': 'sin', '\\cos': 'cos', '\\tan': 'tan', '\\cot': 'cot', '\\exp': 'exp', '\\ln': 'log', '\\log': 'log'}
OPEN, CLOSE = {'(': ')', '[': ']', '{': '}'}, {')', ']', '}'}
SPACE = {'\\,', '\\;', '\\:', '\\!', '\\quad', '\\qquad', '\\ ', '~'}

def tokens(t, names, exprs):
    """names: string symbol -> value it stands for (atomic); exprs: string symbol -> value it stands for (an arbitrary formula)"""
    out = []
    for p in (t.args if t.op == 'st' else [t]):
        if isk(p, 'str'):
            for m in re.finditer(r'\\[a-zA-Z]+|\\.|[0-9]+(?:\.[0-9]+)?|[a-zA-Z]|\s+|.', kval(p)):
                x = m.group()
                if x.isspace() or x in SPACE or x in ('\\left', '\\right', '\\bigl', '\\bigr', '\\Bigl', '\\Bigr', '\\big', '\\Big', '\\displaystyle'):
                    out.append(('space', x))
                elif x[0].isdigit():
                    out.append(('num', K(int(x)) if '.' not in x else K(x)))
                else:
                    out.append(('ch', {'\\{': '(', '\\}': ')', '\\dfrac': '\\frac', '\\tfrac': '\\frac', '\\times': '\\cdot', '\\ldots': '\\dots', '\\cdots': '\\dots',
                                       '\\ddots': '\\dots', '*': '\\cdot', '\u2212': '-'}.get(x, x)))
        elif p in names:
            out.append(('name', names[p]))
        elif p in exprs:
            out.append(('expr', exprs[p]))
        elif p.op == 'a' and p.args[0] in ('fmt', 'str') and kind(p.args[1]) in ('int', 'num') and (len(p.args) < 3 or p.args[2] in (K(''), K('d'))):
            out.append(('int', p.args[1]))
        else:
            raise Unknown(show(p, 3))
    # adjacent digits and number holes run together; spaces do not separate numbers visibly
    prev = None
    for k, v in out:
        if k == 'space':
            continue
        if k in ('num', 'int') and prev in ('num', 'int'):
            raise Unreadable('two numbers side by side')
        prev = k
    return [x for x in out if x[0] != 'space'] + [('end', '')]

class Reader:
    def __init__(self, toks):
        self.t, self.i = toks, 0
    @property
    def cur(self):
        return self.t[self.i]
    def ch(self, *cs):
        return self.cur[0] == 'ch' and self.cur[1] in cs
    def take(self):
        self.i += 1
        return self.t[self.i - 1]
    def need(self, c):
        if not self.ch(c):
            raise Unreadable('expected %s' % c)
        self.i += 1
    def whole(self):
        sides = [self.expr()]
        while self.ch('='):
            self.i += 1
            sides.append(self.expr())
        if self.cur[0] != 'end':
            raise Unreadable('unexpected %s' % (self.cur[1],))
        return sides[0] if len(sides) == 1 else tup(*sides)
    def expr(self):
        first = True
        total = ZERO
        while True:
            sign = 1
            n = 0
            while self.ch('+', '-'):
                if self.take()[1] == '-':
                    sign = -sign
                n += 1
            if not first and not n:
                break
            if self.cur[0] == 'expr':                      # a formula put in without brackets
                v = self.take()[1]
                if sign < 0 or not (self.cur[0] == 'end' or self.ch('+', '-', '=', '&', *CLOSE)):
                    raise Unreadable('a formula inserted without brackets')
            else:
                v = self.term()
            total = add(total, v if sign > 0 else neg(v))
            first = False
            if not self.ch('+', '-'):
                break
        return total
    def starts(self):
        k, v = self.cur
        return k in ('num', 'name') or k == 'ch' and (v in OPEN or v in ('\\frac', '\\sqrt', '\\dots', '\\pi', '\\varphi', '\\phi') or v in FUN or v.isalpha() and len(v) == 1)
    def term(self):
        v = self.factor()
        while True:
            if self.ch('\\cdot'):
                self.i += 1
                if self.ch('-', '+'):
                    s = self.take()[1]
                    w = self.factor()
                    v = mul(v, neg(w) if s == '-' else w)
                else:
                    v = mul(v, self.factor())
            elif self.ch('/'):
                self.i += 1
                v = div(v, self.factor())
            elif self.cur[0] in ('int', 'expr'):
                raise Unreadable('a number or formula that may carry a sign directly after a factor')
            elif self.starts():
                v = mul(v, self.factor())
            else:
                return v
    def factor(self):
        k, v = self.cur
        b = self.base()
        if self.ch('^'):
            if k == 'int':
                raise Unreadable('power of a number that may carry a sign')
            self.i += 1
            if self.ch('{'):
                e = self.group()
            elif self.cur[0] == 'num':
                n = self.take()[1]
                if kval(n) > 9:
                    raise Unreadable('exponent of several digits without braces')
                e = n
            elif self.cur[0] == 'name':
                e = self.take()[1]
            else:
                raise Unreadable('exponent without braces')
            if self.ch('^'):
                raise Unreadable('double exponent')
            return power(b, e)
        return b
    def group(self):
        """{...}"""
        self.need('{')
        v = self.expr()
        self.need('}')
        return v
    def base(self):
        k, v = self.take()
        if k in ('num', 'int', 'name'):
            return v
        if k == 'ch':
            if v in OPEN:
                x = self.expr()
                self.need(OPEN[v])
                return x
            if v == '\\frac':
                a = self.group()
                b = self.group()
                return div(a, b)
            if v == '\\sqrt':
                return app('sqrt', self.group())
            if v in FUN:
                if not self.ch(*OPEN):
                    if self.cur[0] == 'name':
                        return app(FUN[v], self.take()[1])
                    raise Unreadable('function without brackets')
                return app(FUN[v], self.base())
            if v == '\\dots':
                return sym('dots', 'num')
            if v in ('\\pi', '\\varphi', '\\phi'):
                return sym({'\\phi': '\\varphi'}.get(v, v), 'num')
            if v.isalpha() and len(v) == 1:
                w = v
                while self.cur[0] == 'ch' and len(self.cur[1]) == 1 and self.cur[1].isalpha():
                    w += self.take()[1]
                return sym('name:' + w, 'num')
            if v[0] == '\\' and v[1:].isalpha():
                raise Unknown(v)
        raise Unreadable('unexpected %s' % (v if isinstance(v, str) else show(v, 2)))

def read(names=(), exprs=()):
    names, exprs = dict(names), dict(exprs)
    def leaf(t):
        if t.op == 'q':
            return mk_seq(t.args[0], [unit(go(p.args[0])) if p.op == 'u' else p for p in t.args[1]])
        if kind(t) != 'str' and t.op != 'st':
            return t
        try:
            return Reader(tokens(t, names, exprs)).whole()
        except Unreadable as e:
            return rawapp('latex', K('not a formula: %s' % e), t)
        except Unknown as e:
            return rawapp('unknown', K('latex %s' % e), t)
    def go(t):
        return mapleaves(leaf, t)
    return go
