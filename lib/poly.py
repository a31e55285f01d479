"""Multivariate polynomials over the rationals, and their quotients."""
from fractions import Fraction as Fr


class Poly:
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = t or {}

    @staticmethod
    def const(c):
        c = Fr(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def var(n):
        return Poly({((n, 1),): Fr(1)})

    def __add__(self, o):
        t = dict(self.t)
        for k, c in o.t.items():
            s = t.get(k, 0) + c
            if s:
                t[k] = s
            else:
                t.pop(k, None)
        return Poly(t)

    def __neg__(self):
        return Poly({k: -c for k, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        t = {}
        for k, c in self.t.items():
            for l, d in o.t.items():
                m = dict(k)
                for v, e in l:
                    m[v] = m.get(v, 0) + e
                m = tuple(sorted((v, e) for v, e in m.items() if e))
                s = t.get(m, 0) + c * d
                if s:
                    t[m] = s
                else:
                    t.pop(m, None)
        return Poly(t)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    __hash__ = None

    def __bool__(self):
        return bool(self.t)

    def is_const(self):
        return all(k == () for k in self.t)

    def value(self):
        return self.t.get((), Fr(0))

    def degree(self, v):
        return max((dict(k).get(v, 0) for k in self.t), default=0)

    def coeff(self, v, n):
        out = {}
        for k, c in self.t.items():
            d = dict(k)
            if d.pop(v, 0) == n:
                out[tuple(sorted(d.items()))] = c
        return Poly(out)

    def subs(self, env):
        r = Poly()
        for k, c in self.t.items():
            p = Poly.const(c)
            for v, e in k:
                x = env.get(v)
                x = Poly.var(v) if x is None else x
                for _ in range(e):
                    p = p * x
            r = r + p
        return r

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for k, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            m = '*'.join(v if e == 1 else '%s^%d' % (v, e) for v, e in k)
            out.append(('%s' % c if not m else m if c == 1 else '-' + m if c == -1 else '%s*%s' % (c, m)))
        return ' + '.join(out).replace('+ -', '- ')


class Rat:
    """A quotient of polynomials, not reduced."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n, self.d = n, d if d is not None else Poly.const(1)

    @staticmethod
    def const(c):
        return Rat(Poly.const(c))

    @staticmethod
    def var(n):
        return Rat(Poly.var(n))

    def __add__(self, o):
        if self.d == o.d:
            return Rat(self.n + o.n, self.d)
        return Rat(self.n * o.d + o.n * self.d, self.d * o.d)

    def __neg__(self):
        return Rat(-self.n, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Rat(self.n * o.n, self.d * o.d)

    def __truediv__(self, o):
        if not o.n:
            raise ZeroDivisionError
        return Rat(self.n * o.d, self.d * o.n)

    def __eq__(self, o):
        return isinstance(o, Rat) and not (self.n * o.d - o.n * self.d)

    __hash__ = None

    def is_const(self):
        return self.n.is_const() and self.d.is_const()

    def value(self):
        return self.n.value() / self.d.value()

    def __repr__(self):
        return repr(self.n) if self.d == Poly.const(1) else '(%r)/(%r)' % (self.n, self.d)
