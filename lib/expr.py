"""Expressions: a Pratt parser over the tokens of cxx.py, and exact evaluation of constant ones.

Nodes are tuples:
  ('num', Fraction, text) ('str', text) ('id', name, targs) ('call', f, args) ('idx', a, args) ('mem', a, name)
  ('un', op, a) ('post', op, a) ('bin', op, a, b) ('ass', op, a, b) ('cond', c, a, b)
  ('init', type, items)  where an item is an expression or ('des', name, expression)
  ('lam', tokens) ('cast', type tokens, e) ('opaque', tokens)
"""
import re
from fractions import Fraction
import cxx
from cxx import match, angle, split_args
from vbuild import Broken

BIN = {'||': 1, '&&': 2, '|': 3, '^': 4, '&': 5, '==': 6, '!=': 6, '<': 7, '>': 7, '<=': 7, '>=': 7, '<=>': 7.5,
       '<<': 8, '>>': 8, '+': 9, '-': 9, '*': 10, '/': 10, '%': 10}
ASS = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}


def number(text):
    t = text.replace("'", '')
    u = re.fullmatch(r'(?i)(0x[0-9a-f.]+(?:p[+-]?\d+)?|0b[01]+|[\d.]+(?:e[+-]?\d+)?)(u?l{0,2}|l{0,2}u|f|z|uz)', t)
    if not u:
        raise Broken('number ' + text)
    t = u.group(1).lower()
    if t.startswith('0b'):
        return Fraction(int(t, 2))
    if t.startswith('0x'):
        if 'p' not in t and '.' not in t:
            return Fraction(int(t, 16))
        m, _, p = t[2:].partition('p')
        i, _, f = m.partition('.')
        return Fraction(int((i + f) or '0', 16), 16 ** len(f)) * Fraction(2) ** int(p or 0)
    if re.fullmatch(r'0[0-7]+', t):
        return Fraction(int(t, 8))
    return Fraction(t if not t.endswith('.') else t + '0')


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def expr(self, bp=0):
        a = self.unary()
        while True:
            o = self.peek()
            if o is None or o.kind != 'op':
                return a
            if o in ('>',) and self.peek(1) == '>' and self.t[self.i + 1].line == o.line and BIN['>>'] > bp and \
                    self.i + 2 < len(self.t) and self.t[self.i + 2] not in (')', ',', ';'):
                self.i += 2
                a = ('bin', '>>', a, self.expr(BIN['>>']))
                continue
            if o in BIN and BIN[o] > bp:
                self.i += 1
                a = ('bin', str(o), a, self.expr(BIN[o]))
                continue
            if o == '?' and bp < 0.9:
                self.i += 1
                b = self.expr()
                if self.peek() != ':':
                    raise Broken('conditional')
                self.i += 1
                a = ('cond', a, b, self.expr(0.4))
                continue
            if o in ASS and bp < 0.6:
                self.i += 1
                a = ('ass', str(o), a, self.expr(0.4))
                continue
            return a

    def unary(self):
        t = self.peek()
        if t is None:
            raise Broken('expression expected')
        if t.kind == 'op':
            if t in ('-', '+', '!', '~', '*', '&', '++', '--'):
                self.i += 1
                return ('un', str(t), self.unary())
            if t == '(':
                k = match(self.t, self.i)
                inner = self.t[self.i + 1:k]
                self.i = k + 1
                return self.postfix(parse(inner) if inner else ('init', None, []))
            if t == '{':
                k = match(self.t, self.i)
                inner = self.t[self.i + 1:k]
                self.i = k + 1
                return self.postfix(('init', None, items(inner)))
            if t == '[':
                k = self.lambda_end()
                l = ('lam', self.t[self.i:k])
                self.i = k
                return self.postfix(l)
            if t == '::':
                return self.postfix(self.name())
            raise Broken('unexpected %s at %s:%d' % (t, t.file, t.line))
        if t.kind == 'num':
            self.i += 1
            return self.postfix(('num', number(t), str(t)))
        if t.kind in ('str', 'chr', 'raw'):
            s = str(t)
            self.i += 1
            while self.peek() is not None and self.peek().kind in ('str', 'raw'):
                s += str(self.peek())
                self.i += 1
            return self.postfix(('str', s))
        if t in ('sizeof', 'new', 'delete', 'throw', 'co_await', 'requires'):
            r = ('opaque', self.t[self.i:])
            self.i = len(self.t)
            return r
        return self.postfix(self.name())

    def lambda_end(self):
        i = match(self.t, self.i) + 1
        while i < len(self.t):
            if self.t[i] == '(':
                i = match(self.t, i) + 1
            elif self.t[i] == '<' and angle(self.t, i):
                i = angle(self.t, i) + 1
            elif self.t[i] == '{':
                return match(self.t, i) + 1
            else:
                i += 1
        return i

    def name(self):
        out, targs = '', None
        if self.peek() == '::':
            self.i += 1
        while True:
            t = self.peek()
            if t is None or t.kind != 'id':
                break
            if t in ('template', 'typename'):
                self.i += 1
                continue
            if t == 'operator':
                j = self.i + 1
                while self.t[j] != '(' or j == self.i + 1 and self.t[j] == '(' and self.t[j + 1] == ')':
                    j += 2 if self.t[j] == '(' else 1
                out += 'operator' + ''.join(self.t[self.i + 1:j])
                self.i = j
                return ('id', out, None)
            out += t
            self.i += 1
            targs = None
            if self.peek() == '<':
                k = angle(self.t, self.i)
                nxt = self.t[k + 1] if k is not None and k + 1 < len(self.t) else None
                if k is not None and (nxt is None or nxt in ('(', '{', '::', ')', ',', '.', ';', '*', '>') or
                                      t.endswith('_cast')) and self.targ_like(self.t[self.i + 1:k]):
                    targs = split_args(self.t[self.i + 1:k])
                    self.i = k + 1
            if self.peek() == '::':
                self.i += 1
                out += '::'
                continue
            break
        if not out:
            raise Broken('name expected at %s' % (self.peek(),))
        return ('id', out, targs)

    @staticmethod
    def targ_like(toks):
        return not any(t.kind == 'op' and t in ('&&', '||', ';', '==', '=') for t in toks)

    def postfix(self, a):
        while True:
            t = self.peek()
            if t is None or t.kind != 'op':
                return a
            if t == '(':
                k = match(self.t, self.i)
                args = items(self.t[self.i + 1:k])
                self.i = k + 1
                if a[0] == 'id' and a[1].split('::')[-1] in ('static_cast', 'const_cast', 'reinterpret_cast',
                                                            'dynamic_cast', 'bit_cast') and a[2]:
                    a = ('cast', a[2][0], args[0])
                else:
                    a = ('call', a, args)
            elif t == '[':
                k = match(self.t, self.i)
                a = ('idx', a, items(self.t[self.i + 1:k]))
                self.i = k + 1
            elif t == '{' and a[0] == 'id':
                k = match(self.t, self.i)
                a = ('init', a, items(self.t[self.i + 1:k]))
                self.i = k + 1
            elif t in ('.', '->'):
                self.i += 1
                n = self.name()
                a = ('mem', a, n[1], n[2])
            elif t in ('++', '--'):
                self.i += 1
                a = ('post', str(t), a)
            elif t == '...':
                self.i += 1
                a = ('pack', a)
            else:
                return a


def items(toks):
    out = []
    for p in split_args(toks):
        if not p:
            continue
        if p[0] == '.' and len(p) > 2 and p[1].kind == 'id':
            rest = p[3:] if p[2] == '=' else p[2:]
            out.append(('des', str(p[1]), parse(rest)))
        else:
            out.append(parse(p))
    return out


def parse(toks):
    p = P(list(toks))
    a = p.expr()
    if p.i != len(p.t):
        raise Broken('cannot parse the expression %s' % ' '.join(toks)[:120])
    return a


def try_parse(toks):
    try:
        return parse(toks)
    except (Broken, IndexError):
        return None


def value(e, env=lambda n: None):
    """The exact value of a constant expression, or None.  `env` gives the values of names."""
    k = e[0]
    if k == 'num':
        return e[1]
    if k == 'id':
        return env(e[1])
    if k == 'un':
        a = value(e[2], env)
        if a is None or e[1] not in '+-':
            return None
        return -a if e[1] == '-' else a
    if k == 'cast':
        return value(e[2], env)
    if k == 'init' and len(e[2]) == 1 and e[2][0][0] != 'des':
        return value(e[2][0], env)
    if k == 'call' and e[1][0] == 'id' and e[1][1] in ('double', 'int', 'float') and len(e[2]) == 1:
        return value(e[2][0], env)
    if k == 'bin':
        a, b = value(e[2], env), value(e[3], env)
        if a is None or b is None:
            return None
        try:
            r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b,
                 '<<': lambda: a * 2 ** b, '%': lambda: a % b}.get(e[1])
            if r is None:
                return None
            if e[1] == '/' and all(integral(x) for x in e[2:4]):
                return Fraction(int(a / b))
            return r()
        except ZeroDivisionError:
            return None
    return None


def integral(e):
    """Whether the expression is built of integer literals only."""
    if e[0] == 'num':
        return not re.search(r'[.pP]', e[2]) and (e[2].startswith(('0x', '0X')) or not re.search(r'[eE]', e[2]))
    if e[0] == 'un':
        return integral(e[2])
    if e[0] == 'bin':
        return integral(e[2]) and integral(e[3])
    return False
