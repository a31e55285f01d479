"""Abstract interpretation of LLVM IR in the domain of the rational functions of the inputs.

Floating-point values are rational functions over the reals (rounding is ignored), integers and addresses are known,
and a branch on an unknown condition takes both sides.  Each path yields, for the stores to the output, rational
functions in normal form; these are compared with the definition."""
import os, re, struct, subprocess
from fractions import Fraction as Fr
import astlib, vbuild
from poly import Poly
from vbuild import BUILD, Broken, CLANG, REPO, sha, source_hash


class Unsupported(Exception):
    pass


class Trap(Exception):
    pass


# Rational functions over "atoms": inputs, and square roots or other functions of rational functions.

QUARTER_PI = Fr('0.78539816339744830961566084581987572104929234984377645524373614807695')
ROOT_HALF = Fr('0.70710678118654752440084436210484903928483593768847403658833986899537')
# sin(k π / 4).
EIGHTHS = [Fr(0), ROOT_HALF, Fr(1), ROOT_HALF, Fr(0), -ROOT_HALF, Fr(-1), -ROOT_HALF]


class Dom:
    """Normal forms, modulo the rewrite rules atom^n -> polynomial."""

    def __init__(self, rules=None):
        self.rules = dict(rules or {})     # name -> (power, Poly)
        self.atoms = {}                    # (function, key of the arguments) -> name
        self.args = {}                     # name -> (function, arguments)
        self.abs_atoms = False
        self.halved = set()                # keys of angles expressed by their halves
        self.positive = set()              # variables known to be positive

    def reduce(self, p):
        for _ in range(60):
            hit = None
            for k in p.t:
                for v, e in k:
                    if v in self.rules and e >= self.rules[v][0]:
                        hit = (v, self.rules[v])
                        break
                if hit:
                    break
            if not hit:
                return p
            v, (n, q) = hit
            out = Poly()
            for k, c in p.t.items():
                d = dict(k)
                e = d.get(v, 0)
                if e >= n:
                    d[v] = e - n
                    m = Poly({tuple(sorted((a, b) for a, b in d.items() if b)): c})
                    out = out + m * q
                else:
                    out = out + Poly({k: c})
            p = out
        raise Unsupported('reduction')

    def negative(self, r):
        k = sorted(r.n.t)
        return bool(k) and (r.n.t[k[0]] < 0) != (r.d.t[sorted(r.d.t)[0]] < 0)

    def function(self, f, *args):
        """f(args), as a value; odd and even functions are normalized."""
        if f in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'asinh', 'atanh', 'cbrt') and self.negative(args[0]):
            return -self.function(f, -args[0])
        if f in ('cos', 'cosh') and self.negative(args[0]):
            return self.function(f, -args[0])
        c = args[0].const() if len(args) == 1 else None
        if f in ('sin', 'cos') and args[0].d.is_const() and self.halved:
            # The angles are halved, and reduced modulo π / 4.
            a = args[0]
            k = a.n.t.get((), 0) / a.d.value()
            if k and c is None:
                q = round(k / QUARTER_PI)
                if abs(k - q * QUARTER_PI) < Fr(1, 10 ** 12):
                    r = a - V(Poly.const(k), None, self)
                    s0, c0 = self.function('sin', r), self.function('cos', r)
                    sq, cq = EIGHTHS[q % 8], EIGHTHS[(q + 2) % 8]
                    sq, cq = V(Poly.const(sq), None, self), V(Poly.const(cq), None, self)
                    return s0 * cq + c0 * sq if f == 'sin' else c0 * cq - s0 * sq
            if self.key(a) in self.halved:
                h = a / V(Poly.const(2), None, self)
                s0, c0 = self.function('sin', h), self.function('cos', h)
                return V(Poly.const(2), None, self) * s0 * c0 if f == 'sin' else c0 * c0 - s0 * s0
        if c == 0:
            if f in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'asinh', 'atanh', 'cbrt'):
                return V(Poly(), None, self)
            if f in ('cos', 'cosh', 'exp'):
                return V(Poly.const(1), None, self)
        return V(Poly.var(self.atom(f, *args)), None, self)

    def atom(self, f, *args):
        key = (f,) + tuple(self.key(a) for a in args)
        if key not in self.atoms:
            n = '%s#%d' % (f, len(self.atoms))
            self.atoms[key] = n
            self.args[n] = (f, args)
        return self.atoms[key]

    def key(self, r):
        n, d = r.n, r.d
        if d.is_const():
            c = d.value()
            return repr(Poly({k: x / c for k, x in n.t.items()}))
        # Normalize by the leading coefficient of the denominator.
        k0 = sorted(d.t)[0]
        c = d.t[k0]
        return repr(Poly({k: x / c for k, x in n.t.items()})) + ' / ' + repr(Poly({k: x / c for k, x in d.t.items()}))

    def monomial_root(self, p):
        import math
        (k, c), = p.t.items()
        if c <= 0 or any(e % 2 or v not in self.positive for v, e in k):
            return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a != c.numerator or b * b != c.denominator:
            return None
        return Poly({tuple((v, e // 2) for v, e in k): Fr(a, b)})

    def square_root(self, r):
        if r.n.is_const() and r.d.is_const():
            import math
            c = r.n.value() / r.d.value()
            if c >= 0:
                a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if a * a == c.numerator and b * b == c.denominator:
                    return V(Poly.const(Fr(a, b)), None, self)
        if self.positive and len(r.n.t) == 1 and len(r.d.t) == 1:
            a, b = self.monomial_root(r.n), self.monomial_root(r.d)
            if a is not None and b is not None:
                return V(a, b, self)
        n = self.atom('sqrt', r)
        if n not in self.rules:
            if r.d.is_const():
                self.rules[n] = (2, Poly({k: x / r.d.value() for k, x in r.n.t.items()}))
            else:
                # sqrt(n / d) = sqrt(n d) / d.
                s = self.square_root(V(r.n * r.d, None, self))
                return s / V(r.d, None, self)
        return V(Poly.var(n), None, self)


class V:
    """A rational function, in a domain."""
    __slots__ = ('n', 'd', 'o')
    ONE = Poly.const(1)

    def __init__(self, n, d, o):
        d = d or V.ONE
        n = o.reduce(n)
        if d is not V.ONE:
            d = o.reduce(d)
            if not n:
                d = V.ONE
            elif d.is_const():
                c = d.value()
                if c == 0:
                    raise Unsupported('division by zero')
                n, d = Poly({k: x / c for k, x in n.t.items()}), V.ONE
            elif len(d.t) == 1:
                # A monomial: cancel.
                (k, c), = d.t.items()
                low = dict(k)
                for m in n.t:
                    e = dict(m)
                    low = {v: min(x, e.get(v, 0)) for v, x in low.items()}
                if c != 1 or any(low.values()):
                    def cut(m):
                        e = dict(m)
                        return tuple(sorted((v, x - low.get(v, 0)) for v, x in e.items() if x - low.get(v, 0)))
                    n = Poly({cut(m): x / c for m, x in n.t.items()})
                    d = Poly({cut(k): Fr(1)})
                    if d.is_const():
                        d = V.ONE
            else:
                q = exact_division(n, d)
                if q is not None:
                    n, d = q, V.ONE
        self.n, self.d, self.o = n, d, o

    def __add__(self, b):
        if isinstance(b, (int, Fr)):
            b = V(Poly.const(Fr(b)), None, self.o)
        if self.d is b.d or self.d == b.d:
            return V(self.n + b.n, self.d, self.o)
        if self.d is V.ONE:
            return V(self.n * b.d + b.n, b.d, self.o)
        if b.d is V.ONE:
            return V(self.n + b.n * self.d, self.d, self.o)
        return V(self.n * b.d + b.n * self.d, self.d * b.d, self.o)

    def __neg__(self):
        return V(-self.n, self.d, self.o)

    def __sub__(self, b):
        if isinstance(b, (int, Fr)):
            b = V(Poly.const(Fr(b)), None, self.o)
        return self + (-b)

    def __mul__(self, b):
        if isinstance(b, (int, Fr)):
            b = V(Poly.const(Fr(b)), None, self.o)
        if self.d is V.ONE and b.d is V.ONE:
            return V(self.n * b.n, None, self.o)
        return V(self.n * b.n, self.d * b.d, self.o)

    def __truediv__(self, b):
        if isinstance(b, (int, Fr)):
            b = V(Poly.const(Fr(b)), None, self.o)
        if not b.n:
            raise Unsupported('division by zero')
        return V(self.n * b.d, self.d * b.n, self.o)

    def __radd__(self, a):
        return V(Poly.const(Fr(a)), None, self.o) + self

    def __rsub__(self, a):
        return V(Poly.const(Fr(a)), None, self.o) - self

    def __rmul__(self, a):
        return V(Poly.const(Fr(a)), None, self.o) * self

    def __rtruediv__(self, a):
        return V(Poly.const(Fr(a)), None, self.o) / self

    def const(self):
        return self.n.value() if self.d is V.ONE and self.n.is_const() else None

    def same(self, b):
        d = self.o.reduce(self.n * b.d - b.n * self.d)
        return not d

    def close(self, b, tol):
        d = self.o.reduce(self.n * b.d - b.n * self.d)
        m = max([abs(x) for x in (self.n * b.d).t.values()] + [abs(x) for x in (b.n * self.d).t.values()] + [Fr(0)])
        return all(abs(x) <= tol * m for x in d.t.values())

    def __repr__(self):
        return repr(self.n) if self.d is V.ONE else '(%r) / (%r)' % (self.n, self.d)


def lead(p):
    """The leading monomial, in lexicographic order."""
    vs = sorted({v for k in p.t for v, _ in k})
    return max(p.t, key=lambda k: [dict(k).get(v, 0) for v in vs]), vs


def exact_division(n, d):
    """n / d if it is a polynomial, or None."""
    if len(n.t) > 400 or len(d.t) > 60:
        return None
    vs = sorted({v for p in (n, d) for k in p.t for v, _ in k})

    def exps(k):
        e = dict(k)
        return tuple(e.get(v, 0) for v in vs)

    nn = {exps(k): c for k, c in n.t.items()}
    dd = {exps(k): c for k, c in d.t.items()}
    l = max(dd)
    out = {}
    while nn:
        k = max(nn)
        m = tuple(a - b for a, b in zip(k, l))
        if min(m) < 0:
            return None
        c = nn[k] / dd[l]
        out[m] = c
        if len(out) > 400:
            return None
        for x, y in dd.items():
            z = tuple(a + b for a, b in zip(x, m))
            w = nn.get(z, 0) - c * y
            if w:
                nn[z] = w
            else:
                nn.pop(z, None)
    return Poly({tuple((v, e) for v, e in zip(vs, k) if e): c for k, c in out.items()})


# The parser of IR.

class Module:
    def __init__(self, text):
        self.fns, self.types, self.globals = {}, {}, {}
        cur = None
        for line in text.splitlines():
            if cur is not None:
                if line == '}':
                    cur = None
                else:
                    cur.append(line)
                continue
            if line.startswith('define'):
                m = re.search(r'@("[^"]+"|[\w.$]+)\((.*)\)', line)
                name = m.group(1).strip('"')
                cur = []
                self.fns[name] = (line, cur)
            elif line.startswith('%'):
                m = re.match(r'(%(?:"[^"]+"|[\w.$:]+)) = type (.*)', line)
                if m:
                    self.types[m.group(1)] = m.group(2)
            elif line.startswith('@'):
                m = re.match(r'@("[^"]+"|[\w.$]+) = (.*)', line)
                if m:
                    self.globals[m.group(1).strip('"')] = m.group(2)
        for name, v in self.globals.items():
            m = re.search(r'\balias [^@]*\([^@]*\), ptr @("[^"]+"|[\w.$]+)', v)
            if m and m.group(1).strip('"') in self.fns and name not in self.fns:
                line, body = self.fns[m.group(1).strip('"')]
                self.fns[name] = (line.replace('@' + m.group(1), '@' + name), body)
        self.parsed = {}
        self.sizes = {}
        # The dynamic initializations of the variables.
        self.ctors = {v.strip('"'): f.strip('"') for f, v in re.findall(
            r'ptr @("[^"]+"|[\w.$]+), ptr @("[^"]+"|[\w.$]+) }', self.globals.get('llvm.global_ctors', ''))}

    def function(self, name):
        if name not in self.parsed:
            line, body = self.fns[name]
            m = re.search(r'@(?:"[^"]+"|[\w.$]+)\((.*)\)', line)
            # The parameters: last word of each.
            ps, depth, s = [], 0, ''
            i = line.index('(', line.index('@' + name) if '@' + name in line else line.index('@"'))
            j = i + 1
            depth = 1
            while depth:
                ch = line[j]
                depth += ch in '([{<'
                depth -= ch in ')]}>'
                if depth == 1 and ch == ',':
                    ps.append(s)
                    s = ''
                elif depth:
                    s += ch
                j += 1
            if s.strip():
                ps.append(s)
            params = [p.split()[-1] for p in ps if p.strip() != '...']
            blocks, order, cur = {}, [], None
            cont = None
            for l in body:
                if not l.strip() or l.lstrip().startswith(';'):
                    continue
                if cont is not None:
                    cont += ' ' + l.strip()
                    if ']' in l:
                        blocks[cur].append(cont)
                        cont = None
                    continue
                mm = re.match(r'("[^"]+"|[\w.$-]+):', l)
                if mm and not l.startswith(' '):
                    cur = '%' + mm.group(1)
                    blocks[cur] = []
                    order.append(cur)
                    continue
                if cur is None:
                    cur = '%entry'
                    blocks[cur] = []
                    order.append(cur)
                t = l.strip()
                t = re.sub(r', ![\w.]+ ![\w]+|, !\w+ !\d+|, !srcloc !\d+', '', t)
                if t.startswith('switch') and ']' not in t:
                    cont = t
                    continue
                blocks[cur].append(t)
            self.parsed[name] = (params, blocks, order[0] if order else None)
        return self.parsed[name]

    def size(self, t):
        """(size, alignment) in bytes."""
        t = t.strip()
        if t in self.sizes:
            return self.sizes[t]
        r = self._size(t)
        self.sizes[t] = r
        return r

    def _size(self, t):
        if t == 'double':
            return 8, 8
        if t == 'float':
            return 4, 4
        if t == 'ptr' or t.startswith('ptr '):
            return 8, 8
        m = re.fullmatch(r'i(\d+)', t)
        if m:
            n = max(1, int(m.group(1)) // 8)
            return n, n
        if t.startswith('['):
            m = re.match(r'\[(\d+) x (.*)\]$', t)
            s, a = self.size(m.group(2))
            return int(m.group(1)) * s, a
        if t.startswith('<{'):
            return sum(self.size(f)[0] for f in fields(t[2:-2])), 1
        if t.startswith('<'):
            m = re.match(r'<(\d+) x (.*)>$', t)
            s, a = self.size(m.group(2))
            return int(m.group(1)) * s, int(m.group(1)) * s
        if t.startswith('{'):
            o = 0
            al = 1
            for f in fields(t[1:-1]):
                s, a = self.size(f)
                o = (o + a - 1) // a * a + s
                al = max(al, a)
            return (o + al - 1) // al * al, al
        if t.startswith('%'):
            if t not in self.types or self.types[t] == 'opaque':
                raise Unsupported('type ' + t)
            return self.size(self.types[t])
        raise Unsupported('type ' + t)

    def layout(self, t):
        """[(offset, type)] of the fields of an aggregate."""
        while t.startswith('%'):
            t = self.types[t]
        if t.startswith('<{'):
            o, out = 0, []
            for f in fields(t[2:-2]):
                out.append((o, f))
                o += self.size(f)[0]
            return out
        if t.startswith('{'):
            o, out = 0, []
            for f in fields(t[1:-1]):
                s, a = self.size(f)
                o = (o + a - 1) // a * a
                out.append((o, f))
                o += s
            return out
        m = re.match(r'[\[<](\d+) x (.*)[\]>]$', t)
        s, _ = self.size(m.group(2))
        return [(i * s, m.group(2)) for i in range(int(m.group(1)))]


def fields(s):
    out, depth, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            depth += ch in '([{<'
            depth -= ch in ')]}>'
            if ch == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def take_type(s):
    """Splits the leading type of a string."""
    s = s.lstrip()
    if s[0] in '[{<':
        depth, q = 0, False
        for i, ch in enumerate(s):
            if ch == '"':
                q = not q
            if q:
                continue
            depth += ch in '[{<('
            depth -= ch in ']}>)'
            if depth == 0:
                return s[:i + 1], s[i + 1:].lstrip()
    m = re.match(r'%"[^"]+"|[%\w.$:]+', s)
    return m.group(0), s[m.end():].lstrip()


ATTRS = re.compile(r'\b(?:noundef|nonnull|nocapture|noalias|readonly|writeonly|readnone|returned|zeroext|signext|inreg|immarg|dead_on_unwind|'
                   r'writable|noext|allocalign|allocptr|align \d+)(?=[ ,)]|$) ?|'
                   r'\b(?:captures|align|dereferenceable|dereferenceable_or_null|sret|byval|initializes|nofpclass|range|inrange)'
                   r'\((?:[^()"]|"[^"]*"|\((?:[^()"]|"[^"]*")*\))*\) ?')


class Ptr:
    __slots__ = ('b', 'o')

    def __init__(self, b, o=0):
        self.b, self.o = b, o

    def __repr__(self):
        return '%s+%s' % (self.b, self.o)


class Cond:
    __slots__ = ('op', 'a', 'b', 'neg')

    def __init__(self, op, a=None, b=None, neg=False):
        self.op, self.a, self.b, self.neg = op, a, b, neg

    def __repr__(self):
        return '%s%s(%r, %r)' % ('!' if self.neg else '', self.op, self.a, self.b)


UNDEF = object()
# The indirect calls of the elementary functions.
FUNCTIONS = re.compile(r'_ZN9principia8numerics\d+_elementary_functions8internal\d+(sin_cos|sin|cos)E$')
NEGATED = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}


def f64(bits):
    return struct.unpack('<d', struct.pack('<Q', bits & (2 ** 64 - 1)))[0]


class Machine:
    MAX_STEPS = 400000

    def __init__(self, mod, dom, decisions, calls=None, assume=None):
        self.m, self.dom = mod, dom
        self.dec, self.used = decisions, []
        self.mem = {}
        self.steps = 0
        self.calls = calls or {}
        self.assume = assume
        self.conds = []
        self.divisions = []
        self.n = 0
        self.bools = {}

    def new(self, what):
        self.n += 1
        b = '%s%d' % (what, self.n)
        self.mem[b] = {}
        return Ptr(b)

    def rat(self, c):
        if isinstance(c, float):
            if c != c or c in (float('inf'), float('-inf')):
                return ('nonfinite', c)
            c = Fr(c)
        return V(Poly.const(c), None, self.dom)

    # Decisions.

    def decide(self, c):
        """The truth of a condition on this path."""
        if isinstance(c, int):
            return bool(c)
        if c is UNDEF:
            raise Unsupported('undefined condition')
        if not isinstance(c, Cond):
            raise Unsupported('condition %r' % (c,))
        r = self.known(c)
        if r is None:
            if self.assume is not None:
                r = self.assume(c)
        if r is None:
            i = len(self.used)
            r = self.dec[i] if i < len(self.dec) else True
            self.used.append(r)
        op = c.op if r else NEGATED.get(c.op)
        self.conds.append((c, r))
        return r

    def sign(self, p):
        """The sign of a polynomial, if it is that of each of its monomials in positive variables, or None."""
        if not p:
            return 0
        pos = self.dom.positive
        if not pos:
            return None
        signs = {1 if c > 0 else -1 for c in p.t.values()}
        if len(signs) != 1 or not all(v in pos or e % 2 == 0 for k in p.t for v, e in k):
            return None
        # At least one monomial doesn't vanish.
        return signs.pop() if any(all(v in pos for v, e in k) for k in p.t) else None

    def known(self, c):
        if isinstance(c.a, V) and isinstance(c.b, V) and c.op in NEGATED and self.dom.positive:
            e = c.a - c.b
            a, b = self.sign(e.n), self.sign(e.d)
            if a is not None and b:
                d = a * b
                return {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[c.op]
        if self.dom.abs_atoms and c.op in ('ge', 'lt') and isinstance(c.a, V) and c.b.const() == 0 and len(c.a.n.t) == 1 and \
                c.a.d is V.ONE and all(v.startswith('abs#') for v, e in list(c.a.n.t)[0]) and list(c.a.n.t.values())[0] > 0:
            return c.op == 'ge'
        for d, r in self.conds:
            if d.op in NEGATED and c.op in NEGATED and isinstance(c.a, V) and isinstance(d.a, V):
                if d.a.same(c.a) and d.b.same(c.b):
                    op = d.op if r else NEGATED[d.op]
                    if op == c.op:
                        return True
                    if NEGATED[op] == c.op:
                        return False
                    if op == 'eq':
                        return c.op in ('le', 'ge')
                    if op in ('lt', 'gt'):
                        return {'lt': {'le': True, 'eq': False, 'gt': False, 'ne': True},
                                'gt': {'ge': True, 'eq': False, 'lt': False, 'ne': True}}[op].get(c.op)
            elif d.op == c.op and d.a == c.a and not isinstance(c.a, V):
                return r
        return None

    # Constants and operands.

    def operand(self, t, s, env):
        s = s.strip()
        if s.startswith('%'):
            if s not in env:
                raise Unsupported('operand ' + s)
            return env[s]
        return self.constant(t, s)

    def constant(self, t, s):
        t, s = t.strip(), s.strip()
        if s in ('poison', 'undef'):
            if t.startswith('<') and not t.startswith('<{'):
                return [UNDEF] * int(re.match(r'<(\d+)', t).group(1))
            if t[0] in '{[%':
                return [UNDEF] * len(self.m.layout(t))
            return UNDEF
        if s == 'zeroinitializer':
            if t[0] in '<{[%':
                return [self.constant(f, 'zeroinitializer') for _, f in self.m.layout(t)]
            return self.zero(t)
        if t in ('double', 'float'):
            if s.startswith('0x'):
                return self.rat(f64(int(s, 16)))
            return self.rat(float(s))
        if re.fullmatch(r'i\d+', t):
            if s in ('true', 'false'):
                return int(s == 'true')
            if re.fullmatch(r'-?\d+', s):
                return int(s) & (2 ** int(t[1:]) - 1)
            if s.startswith('ptrtoint'):
                return UNDEF
            raise Unsupported('integer constant ' + s)
        if t == 'ptr':
            if s == 'null':
                return Ptr(None, 0)
            if s.startswith('@'):
                return Ptr(s.strip('@').strip('"'), 0)
            if s.startswith('getelementptr'):
                s = ATTRS.sub('', s)
                i = s.index('(')
                fs = fields(s[i + 1:-1])
                return self.gep(fs[0], [take_type(f) for f in fs[1:]], {})
            raise Unsupported('pointer constant ' + s)
        if s.startswith('splat ('):
            et, v = take_type(s[7:-1])
            n = int(re.match(r'<(\d+)', t).group(1))
            return [self.constant(et, v)] * n
        if s[0] in '<{[':
            inner = s[1:-1]
            if s.startswith('<{'):
                inner = s[2:-2]
            return [self.constant(*take_type(f)) for f in fields(inner)]
        if s.startswith('c"'):
            raw = re.sub(rb'\\([0-9A-Fa-f]{2})', lambda m: bytes([int(m.group(1), 16)]), s[2:-1].encode('utf-8'))
            return list(raw)
        raise Unsupported('constant %s %s' % (t, s))

    def zero(self, t):
        if t in ('double', 'float'):
            return self.rat(0)
        if t == 'ptr':
            return Ptr(None, 0)
        return 0

    # Memory.

    def flat(self, t, v, o, out):
        if t[0] in '<{[%':
            for (fo, ft), x in zip(self.m.layout(t), v if isinstance(v, list) else [v] * len(self.m.layout(t))):
                self.flat(ft, x, o + fo, out)
        else:
            out.append((o, self.m.size(t)[0], v))

    def store(self, t, v, p):
        if not isinstance(p, Ptr) or p.b is None or not isinstance(p.o, int):
            raise Unsupported('store to %r' % (p,))
        m = self.base(p.b)
        out = []
        self.flat(t, v, p.o, out)
        for o, s, x in out:
            for k in [k for k in range(o - 7, o + s) if k in m and (k != o or m[k][0] != s) and k + m[k][0] > o]:
                ks, kv = m.pop(k)
                if kv == 0 and isinstance(kv, int):
                    for b in range(k, k + ks):
                        if not o <= b < o + s:
                            m[b] = (1, 0)
            m[o] = (s, x)

    def base(self, b):
        if b not in self.mem:
            self.mem[b] = {}
            g = self.m.globals.get(b)
            if g is None:
                raise Unsupported('memory ' + str(b))
            mm = re.match(r'.*?\b(constant|global) (.*)$', g)
            if not mm or 'external' in g.split(mm.group(1))[0].split():
                return self.mem[b]
            t, rest = take_type(mm.group(2))
            if mm.group(1) == 'global' and not b.startswith('_ZZ') and not b.startswith('_ZGV'):
                if b in self.m.ctors:
                    self.call(self.m.ctors[b], [])
                return self.mem[b]
            v = fields(rest)[0]
            out = []
            self.flat(t, self.constant(t, v), 0, out)
            self.mem[b] = {o: (s, x) for o, s, x in out}
        return self.mem[b]

    def load(self, t, p):
        if not isinstance(p, Ptr) or p.b is None or not isinstance(p.o, int):
            raise Unsupported('load from %r' % (p,))
        m = self.base(p.b)
        if t[0] in '<{[%':
            return [self.load(ft, Ptr(p.b, p.o + fo)) for fo, ft in self.m.layout(t)]
        s = self.m.size(t)[0]
        x = m.get(p.o)
        if x is None or x[0] != s:
            # A fully zero range.
            ok = True
            for k in range(p.o, p.o + s):
                if not any(k2 in m and k2 + m[k2][0] > k and isinstance(m[k2][1], int) and m[k2][1] == 0 for k2 in range(k - 7, k + 1)):
                    ok = False
                    break
            if ok:
                return self.zero(t)
            if x is not None and isinstance(x[1], int) and x[0] > s:
                return x[1] & (2 ** (8 * s) - 1)
            if t in ('i16', 'i32', 'i64'):
                # An integer put together from parts.
                v, k = 0, p.o
                while k < p.o + s and k in m and isinstance(m[k][1], int) and not isinstance(m[k][1], bool) and k + m[k][0] <= p.o + s:
                    v |= (m[k][1] & (2 ** (8 * m[k][0]) - 1)) << (8 * (k - p.o))
                    k += m[k][0]
                if k == p.o + s:
                    return v
            if p.b in self.m.globals:
                if p.b.startswith('_ZGV'):
                    # A local variable which is not initialized yet.
                    return 0
                f = FUNCTIONS.match(p.b)
                if f and t == 'ptr':
                    return Ptr('function ' + f.group(1), 0)
                if t in ('i8', 'i1', 'i32', 'i64'):
                    return Cond('global', (p.b, p.o)) if t in ('i8', 'i1') else UNDEF
                # The initial value of a variable.
                mm = re.match(r'.*?\bglobal (.*)$', self.m.globals[p.b])
                if mm and t == 'double' and p.b not in self.m.ctors:
                    raise Unsupported('variable ' + p.b)
            if x is None:
                return UNDEF
            if t == 'i64':
                # Fine as long as it is not used.
                return ('part',)
            raise Unsupported('load of a part')
        return self.convert(t, x[1])

    def convert(self, t, v):
        if t in ('double', 'float'):
            if isinstance(v, int):
                return self.rat(f64(v))
            if isinstance(v, tuple) and v[0] == 'bits':
                return v[1]
            return v
        if re.fullmatch(r'i\d+', t):
            if isinstance(v, V):
                c = v.const()
                if c is not None and Fr(float(c)) == c:
                    return struct.unpack('<Q', struct.pack('<d', float(c)))[0]
                return ('bits', v)
            return v
        if t == 'ptr' and isinstance(v, int):
            if v == 0:
                return Ptr(None, 0)
            raise Unsupported('address')
        return v

    def gep(self, t, idx, env):
        p = self.operand(*idx[0], env)
        if p is UNDEF:
            raise Unsupported('undefined address')
        o = 0
        n = self.signed(self.operand(*idx[1], env), idx[1][0])
        o += n * self.m.size(t)[0] if n else 0
        for it, iv in idx[2:]:
            k = self.signed(self.operand(it, iv, env), it)
            while t.startswith('%'):
                t = self.m.types[t]
            if t.startswith('{') or t.startswith('<{'):
                fo, t = self.m.layout(t)[k]
                o += fo
            else:
                m = re.match(r'[\[<](\d+) x (.*)[\]>]$', t)
                t = m.group(2)
                o += k * self.m.size(t)[0]
        return Ptr(p.b, p.o + o)

    def signed(self, v, t):
        if not isinstance(v, int):
            raise Unsupported('unknown index')
        b = int(t[1:])
        return v - 2 ** b if v >= 2 ** (b - 1) else v

    # Execution.

    def call(self, name, args):
        try:
            return self.interpret(name, args)
        except Unsupported:
            if os.environ.get('ALGEBRA_DEBUG'):
                print('  in', name[:160], '|', self.current[:160] if self.current else '')
                self.current = None
            raise

    current = None

    def interpret(self, name, args):
        params, blocks, entry = self.m.function(name)
        env = dict(zip(params, args))
        cur, prev = entry, None
        while True:
            phis = {}
            jump = None
            for ins in blocks[cur]:
                self.steps += 1
                if self.steps > self.MAX_STEPS:
                    raise Unsupported('too many steps')
                m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = (.*)$', ins)
                dst, rhs = (m.group(1), m.group(2)) if m else (None, ins)
                self.current = ins
                if rhs.startswith('phi '):
                    t, rest = take_type(re.sub(r'^phi (?:fast |nnan |ninf |nsz |reassoc |contract )*', '', rhs))
                    for f in fields(rest):
                        a, b = f.strip()[1:-1].rsplit(',', 1)
                        b = b.strip()
                        if b == prev or (prev == '%entry' and b not in blocks):
                            phis[dst] = self.operand(t, a, env)
                            break
                    else:
                        raise Unsupported('phi')
                    continue
                if phis:
                    env.update(phis)
                    phis = {}
                op = rhs.split(None, 1)[0]
                if op == 'ret':
                    if rhs == 'ret void':
                        return None
                    t, v = take_type(rhs[4:])
                    return self.operand(t, v, env)
                if op == 'br':
                    if rhs.startswith('br label'):
                        jump = rhs.split()[-1]
                    else:
                        mm = re.match(r'br i1 (\S+), label (\S+), label (\S+)', rhs)
                        c = self.operand('i1', mm.group(1), env)
                        a, b = mm.group(2).rstrip(','), mm.group(3).rstrip(',')
                        # A failed check is not explored.
                        if isinstance(c, Cond) and self.known(c) is None:
                            if self.traps(blocks, b):
                                self.conds.append((c, True))
                                jump = a
                                break
                            if self.traps(blocks, a):
                                self.conds.append((c, False))
                                jump = b
                                break
                        jump = a if self.decide(c) else b
                    break
                if op == 'switch':
                    mm = re.match(r'switch (i\d+) (\S+), label (\S+) \[(.*)\]', rhs)
                    v = self.operand(mm.group(1), mm.group(2), env)
                    if not isinstance(v, int):
                        raise Unsupported('switch')
                    jump = mm.group(3)
                    for x in re.finditer(r'i\d+ (-?\d+), label (\S+)', mm.group(4)):
                        if int(x.group(1)) & (2 ** int(mm.group(1)[1:]) - 1) == v:
                            jump = x.group(2)
                    break
                if op == 'unreachable':
                    raise Trap()
                r = self.instruction(op, rhs, env)
                if dst:
                    env[dst] = r
            if jump is None:
                raise Unsupported('block without terminator')
            prev, cur = cur, jump

    def traps(self, blocks, b):
        if b not in blocks:
            return False
        for ins in blocks[b]:
            if 'llvm.ubsantrap' in ins or 'llvm.trap' in ins or ins == 'unreachable' or 'check_failed' in ins:
                return True
            if ins.startswith('br ') or ins.startswith('ret'):
                return False
        return False

    def elementwise(self, f, *vs):
        if isinstance(vs[0], list):
            return [self.elementwise(f, *x) for x in zip(*vs)]
        return f(*vs)

    def arith(self, op):
        def g(a, b):
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if not (isinstance(a, V) and isinstance(b, V)):
                if isinstance(a, tuple) and a[0] == 'nonfinite' or isinstance(b, tuple) and b[0] == 'nonfinite':
                    # Infinities, from constants.
                    v = [x[1] if isinstance(x, tuple) else x.const() if isinstance(x, V) else None for x in (a, b)]
                    if None in v or 0 in v:
                        return ('nonfinite', None)
                    x, y = (float(c) for c in v)
                    return self.rat(x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else x / y)
                raise Unsupported('operands of %s: %r, %r' % (op, a, b))
            if op == 'fdiv' and b.const() == 0:
                # It may be speculated, and not used.
                return ('nonfinite', None)
            if op == 'fdiv' and b.const() is None:
                self.divisions.append(b)
            return a + b if op == 'fadd' else a - b if op == 'fsub' else a * b if op == 'fmul' else a / b
        return g

    def nonfinite(self, op, a, b):
        """The values are finite, except for the constants."""
        v = [float(x[1]) if isinstance(x, tuple) and x[0] == 'nonfinite' else 0.0 for x in (a, b)]
        if any(x != x for x in v):
            return int(op == 'uno' or op == 'true' or op[0] == 'u')
        if op in ('ord', 'true'):
            return 1
        if op in ('uno', 'false'):
            return 0
        x, y = v
        if isinstance(a, tuple) and isinstance(b, tuple) and x == y:
            return int(op[1:] in ('eq', 'le', 'ge'))
        return int({'eq': False, 'ne': True, 'lt': x < y, 'le': x < y, 'gt': x > y, 'ge': x > y}[op[1:]])

    def compare(self, op, a, b):
        if not (isinstance(a, V) and isinstance(b, V)):
            if (isinstance(a, tuple) and a[0] == 'nonfinite') or (isinstance(b, tuple) and b[0] == 'nonfinite'):
                c = self.nonfinite(op, a, b)
                return Cond('nonfinite', (op, repr(a), repr(b))) if c is None else c
            raise Unsupported('fcmp')
        if op in ('ord', 'true'):
            return 1
        if op in ('uno', 'false'):
            return 0
        op = op[1:]
        d = (a - b).const()
        if d is not None:
            return int({'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[op])
        return Cond(op, a, b)

    def instruction(self, op, s, env):
        rest = s[len(op):].strip()
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            rest = re.sub(r'^(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*', '', rest)
            t, r = take_type(rest)
            a, b = fields(r)
            return self.elementwise(self.arith(op), self.operand(t, a, env), self.operand(t, b, env))
        if op == 'fneg':
            rest = re.sub(r'^(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*', '', rest)
            t, a = take_type(rest)
            return self.elementwise(lambda x: -x if isinstance(x, V) else x, self.operand(t, a, env))
        if op == 'load':
            rest = re.sub(r'^(?:atomic |volatile )*', '', rest)
            fs = fields(rest)
            return self.load(fs[0], self.operand('ptr', fs[1].split(None, 1)[1].split(' acquire')[0].split(' monotonic')[0], env))
        if op == 'store':
            rest = re.sub(r'^(?:atomic |volatile )*', '', rest)
            fs = fields(rest)
            t, v = take_type(fs[0])
            self.store(t, self.operand(t, v, env), self.operand('ptr', re.sub(r' (release|seq_cst|monotonic|unordered)$', '', fs[1].split(None, 1)[1]), env))
            return None
        if op == 'getelementptr':
            rest = re.sub(r'^(?:inbounds|nuw|nusw|inrange\([^)]*\)|\s)+(?=\S)', '', rest)
            fs = fields(rest)
            return self.gep(fs[0], [take_type(f) for f in fs[1:]], env)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            rest = re.sub(r'^(?:(?:nsw|nuw|exact|disjoint) )*', '', rest)
            t, r = take_type(rest)
            a, b = fields(r)
            return self.elementwise(self.integer(op, t), self.operand(t, a, env), self.operand(t, b, env))
        if op in ('icmp', 'fcmp'):
            rest = re.sub(r'^(?:(?:samesign|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*', '', rest)
            pred, rest = rest.split(None, 1)
            t, r = take_type(rest)
            a, b = fields(r)
            x, y = self.operand(t, a, env), self.operand(t, b, env)
            if op == 'fcmp':
                return self.elementwise(lambda p, q: self.compare(pred, p, q), x, y)
            return self.icmp(pred, t, x, y)
        if op == 'select':
            rest = re.sub(r'^(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*', '', rest)
            fs = fields(rest)
            ct, cv = take_type(fs[0])
            c = self.operand(ct, cv, env)
            a, b = [self.operand(*take_type(f), env) for f in fs[1:]]
            if isinstance(c, list):
                return [x if self.decide(k) else y for k, x, y in zip(c, a, b)]
            if isinstance(c, Cond):
                if isinstance(a, int) and isinstance(b, int) and ct == 'i1' and {a, b} <= {0, 1}:
                    pass
                elif isinstance(a, V) and isinstance(b, V) and a.same(b):
                    return a
            return a if self.decide(c) else b
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr'):
            rest = re.sub(r'^(?:(?:nneg|nsw|nuw|fast|contract) )*', '', rest)
            m = re.match(r'(.*) to (.*)$', rest)
            t, v = take_type(m.group(1))
            return self.cast(op, t, self.operand(t, v, env), m.group(2))
        if op == 'freeze':
            t, v = take_type(rest)
            return self.operand(t, v, env)
        if op == 'insertelement':
            fs = [take_type(f) for f in fields(rest)]
            v = list(self.operand(*fs[0], env))
            v[self.signed(self.operand(*fs[2], env), fs[2][0])] = self.operand(*fs[1], env)
            return v
        if op == 'extractelement':
            fs = [take_type(f) for f in fields(rest)]
            return self.operand(*fs[0], env)[self.signed(self.operand(*fs[1], env), fs[1][0])]
        if op == 'shufflevector':
            fs = [take_type(f) for f in fields(rest)]
            a, b, k = [self.operand(*f, env) for f in fs]
            ab = a + b
            return [ab[i] if isinstance(i, int) else UNDEF for i in k]
        if op in ('insertvalue', 'extractvalue'):
            fs = fields(rest)
            t, v = take_type(fs[0])
            agg = self.operand(t, v, env)
            if op == 'extractvalue':
                for k in fs[1:]:
                    agg = agg[int(k)]
                return agg

            def put(x, path, y):
                x = list(x)
                x[path[0]] = put(x[path[0]], path[1:], y) if len(path) > 1 else y
                return x
            return put(agg, [int(k) for k in fs[2:]], self.operand(*take_type(fs[1]), env))
        if op == 'alloca':
            return self.new('alloca')
        if op in ('call', 'tail', 'musttail', 'notail', 'invoke'):
            return self.do_call(s, env)
        if op == 'fence':
            return None
        if op == 'atomicrmw' or op == 'cmpxchg':
            raise Unsupported(op)
        raise Unsupported('instruction ' + s[:60])

    def integer(self, op, t):
        bits = int(re.match(r'(?:<\d+ x )?i(\d+)', t).group(1))
        mask = 2 ** bits - 1

        def sg(v):
            return v - 2 ** bits if v >> (bits - 1) else v

        def g(a, b):
            if bits == 1 and (isinstance(a, Cond) or isinstance(b, Cond)):
                return self.logic(op, a, b)
            if isinstance(a, tuple) and a[0] == 'bits' and isinstance(b, int):
                if op == 'and' and b == 2 ** 63 - 1:
                    return ('bits', self.absolute(a[1]))
                if op == 'xor' and b == 2 ** 63:
                    return ('bits', -a[1])
                raise Unsupported('bits')
            if isinstance(a, tuple) and a[0] == 'wide' and op == 'lshr' and isinstance(b, int) and b % 64 == 0:
                return ('wide', a[1][b // 64:] + [self.rat(0)] * (b // 64))
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
                    return (a.o - b.o) & mask
                if op == 'add' and isinstance(a, Ptr) and isinstance(b, int):
                    return Ptr(a.b, a.o + sg(b))
                raise Unsupported('address arithmetic')
            if isinstance(a, Cond) or isinstance(b, Cond):
                a = int(self.decide(a)) if isinstance(a, Cond) else a
                b = int(self.decide(b)) if isinstance(b, Cond) else b
            if not isinstance(a, int) or not isinstance(b, int):
                if op == 'and' and (a == 0 or b == 0):
                    return 0
                raise Unsupported('integer operands')
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            elif op == 'shl':
                r = a << b
            elif op == 'lshr':
                r = a >> b
            elif op == 'ashr':
                r = sg(a) >> b
            elif op == 'udiv':
                r = a // b
            elif op == 'urem':
                r = a % b
            elif op == 'sdiv':
                x, y = sg(a), sg(b)
                r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            else:
                x, y = sg(a), sg(b)
                r = x - y * (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
            return r & mask
        return g

    def logic(self, op, a, b):
        if op == 'xor' and b == 1 and isinstance(a, Cond):
            if a.op in NEGATED:
                return Cond(NEGATED[a.op], a.a, a.b)
            return int(not self.decide(a))
        x = int(self.decide(a))
        if op == 'and' and not x:
            return 0
        if op == 'or' and x:
            return 1
        if op == 'xor':
            return x ^ int(self.decide(b))
        return b

    def icmp(self, pred, t, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.b == b.b:
                x, y = a.o, b.o
            elif pred in ('eq', 'ne'):
                return int(pred == 'ne')
            else:
                raise Unsupported('order of addresses')
        elif isinstance(a, Cond) and isinstance(b, int) and pred in ('eq', 'ne'):
            r = int(self.decide(a))
            return int((r == b) == (pred == 'eq'))
        elif isinstance(a, int) and isinstance(b, int):
            bits = int(t[1:])
            if pred[0] == 's':
                x = a - 2 ** bits if a >> (bits - 1) else a
                y = b - 2 ** bits if b >> (bits - 1) else b
            else:
                x, y = a, b
        elif isinstance(a, tuple) and a[0] == 'bits' and isinstance(b, int):
            if pred == 'slt' and b == 0:
                return self.compare('olt', a[1], self.rat(0))
            if pred == 'sgt' and b == 2 ** 64 - 1:
                return self.compare('oge', a[1], self.rat(0))
            if b == 0 and pred in ('eq', 'ne'):
                # A null absolute value; the sign of a zero is not modelled.
                return self.compare('o' + pred if pred == 'eq' else 'une', a[1], self.rat(0))
            raise Unsupported('comparison of bits')
        else:
            raise Unsupported('icmp of %r and %r' % (a, b))
        p = pred[-2:] if pred not in ('eq', 'ne') else pred
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])

    def absolute(self, a):
        c = a.const()
        if c is not None:
            return self.rat(abs(c))
        if self.dom.abs_atoms:
            if len(a.n.t) == 1 and a.d is V.ONE and all(v.startswith('abs#') or e % 2 == 0 for v, e in list(a.n.t)[0]):
                return a if list(a.n.t.values())[0] > 0 else -a
            n = self.dom.atom('abs', -a if self.dom.negative(a) else a)
            if a.d is V.ONE:
                self.dom.rules[n] = (2, a.n * a.n)
            return V(Poly.var(n), None, self.dom)
        return a if self.decide(Cond('ge', a, self.rat(0))) else -a

    def cast(self, op, t, v, to):
        if isinstance(v, list) and op not in ('bitcast',):
            et = re.match(r'<\d+ x (.*)>', t).group(1)
            eto = re.match(r'<\d+ x (.*)>', to).group(1)
            return [self.cast(op, et, x, eto) for x in v]
        if v is UNDEF:
            return UNDEF
        if op in ('zext', 'trunc'):
            if isinstance(v, Cond):
                return v if op == 'zext' or to == 'i1' else v
            if isinstance(v, tuple) and v[0] == 'wide' and op == 'trunc' and int(to[1:]) % 64 == 0:
                k = int(to[1:]) // 64
                return self.convert('i64', v[1][0]) if k == 1 else ('wide', v[1][:k])
            if not isinstance(v, int):
                raise Unsupported(op)
            return v & (2 ** int(to[1:]) - 1)
        if op == 'sext':
            if isinstance(v, Cond):
                v = int(self.decide(v))
            b = int(t[1:])
            x = v - 2 ** b if v >> (b - 1) else v
            return x & (2 ** int(to[1:]) - 1)
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, Cond):
                v = int(self.decide(v))
            if not isinstance(v, int):
                raise Unsupported(op)
            b = int(t[1:])
            return self.rat(v - 2 ** b if op == 'sitofp' and v >> (b - 1) else v)
        if op in ('fptosi', 'fptoui'):
            c = v.const() if isinstance(v, V) else None
            if c is None:
                raise Unsupported(op)
            return int(c) & (2 ** int(to[1:]) - 1)
        if op in ('ptrtoint', 'inttoptr'):
            if op == 'inttoptr' and isinstance(v, int):
                return Ptr(None, v)
            if isinstance(v, Ptr) and v.b is None:
                return v.o if op == 'ptrtoint' else v
            return v
        if op == 'bitcast':
            if t == 'double' and to == 'i64':
                return self.convert('i64', v)
            if t == 'i64' and to == 'double':
                if isinstance(v, tuple) and v[0] == 'bits':
                    return v[1]
                return self.convert('double', v)
            if isinstance(v, list) and self.m.size(t) == self.m.size(to):
                ft, fto = re.match(r'<(\d+) x (.*)>', t), re.match(r'<(\d+) x (.*)>', to)
                if ft and fto and ft.group(1) == fto.group(1):
                    return [self.cast('bitcast', ft.group(2), x, fto.group(2)) for x in v]
            # Wide integers, holding several numbers.
            if isinstance(v, list) and re.match(r'<\d+ x double>', t):
                mm = re.fullmatch(r'(?:<(\d+) x )?i(128|256|512)>?', to)
                if mm:
                    k = int(mm.group(2)) // 64
                    parts = [('wide', v[j:j + k]) for j in range(0, len(v), k)]
                    return parts if mm.group(1) else parts[0]
            mm = re.fullmatch(r'<(\d+) x double>', to)
            if mm:
                parts = v if isinstance(v, list) else [v]
                if all(isinstance(q, tuple) and q[0] == 'wide' for q in parts):
                    return [y for q in parts for y in q[1]]
            raise Unsupported('bitcast')
        if op in ('fpext', 'fptrunc'):
            return v
        raise Unsupported(op)

    def do_call(self, s, env):
        m = re.match(r'(?:tail |musttail |notail )?(?:call|invoke) (.*)$', s)
        s = m.group(1)
        i = s.find('@')
        j = s.find('(', i) if i >= 0 else -1
        if s[i:i + 2] == '@"':
            j = s.index('(', s.index('"', i + 2))
        mm = re.search(r'(?<=\s)(@"[^"]+"|@[\w.$]+|%[\w.$]+)\(', s)
        if not mm:
            raise Unsupported('indirect call: ' + s[:200])
        if mm.group(1)[0] == '%':
            f = self.operand('ptr', mm.group(1), env)
            if not isinstance(f, Ptr) or f.o != 0 or f.b is None or not (f.b in self.m.fns or f.b.startswith('function ')):
                raise Unsupported('indirect call of %r' % (f,))
            name = f.b.removeprefix('function ')
        else:
            name = mm.group(1)[1:].strip('"')
        k = mm.end()
        depth, q, e = 1, False, k
        while depth:
            ch = s[e]
            if ch == '"':
                q = not q
            if not q:
                depth += ch == '('
                depth -= ch == ')'
            e += 1
        args = []
        if name.startswith('llvm.') and re.match(r'llvm\.(lifetime|assume|experimental\.noalias|dbg|invariant|donothing|prefetch)', name):
            return None
        for a in fields(s[k:e - 1]):
            a = re.sub(r'  +', ' ', ATTRS.sub('', a))
            t, v = take_type(a)
            while v and v.split()[0] in ('noundef', 'nonnull', 'nocapture', 'noalias'):
                v = v.split(None, 1)[1]
            args.append(self.operand(t, v, env) if t != 'metadata' else None)
        return self.apply(name, args)

    def dynamic_cast(self, p, target):
        v = self.load('ptr', p)
        if not isinstance(v, Ptr) or not isinstance(v.b, str) or not v.b.startswith('_ZTV'):
            raise Unsupported('dynamic type %r' % (v,))
        t = '_ZTI' + v.b[4:]
        while t != target.b:
            try:
                b = self.load('ptr', Ptr(t, 16))
            except (Unsupported, KeyError):
                return Ptr(None, 0)
            if not isinstance(b, Ptr) or not isinstance(b.b, str) or not b.b.startswith('_ZTI'):
                return Ptr(None, 0)
            t = b.b
        return p

    def apply(self, name, a):
        one = {'sqrt': lambda x: self.dom.square_root(x), 'fabs': self.absolute}
        base = re.sub(r'^llvm\.', '', name)
        base = re.sub(r'\.(v\d+)?f64(\.\w+)?$', '', base)
        if name in self.calls:
            return self.calls[name](self, a)
        if base in one:
            def g(x):
                if not isinstance(x, V):
                    raise Unsupported(name)
                return one[base](x)
            return self.elementwise(g, a[0])
        if base in ('fma', 'fmuladd'):
            def h(x, y, z):
                return self.arith('fadd')(self.arith('fmul')(x, y), z)
            return self.elementwise(h, *a[:3])
        if base in ('minnum', 'maxnum', 'fmin', 'fmax', 'minimum', 'maximum'):
            c = self.decide(self.compare('olt', a[0], a[1]))
            return a[0] if c == ('min' in base) else a[1]
        if base == 'copysign':
            x = self.absolute(a[0])
            return x if self.decide(self.compare('oge', a[1], self.rat(0))) else -x
        if re.match(r'llvm\.(smax|smin|umax|umin)\.i\d+', name):
            b = int(name.rsplit('i', 1)[1])
            sg = (lambda v: v - 2 ** b if v >> (b - 1) else v) if name[5] == 's' else (lambda v: v)
            if not all(isinstance(x, int) for x in a[:2]):
                raise Unsupported(name)
            return (max if 'max' in name else min)(a[0], a[1], key=sg)
        if re.match(r'llvm\.abs\.i\d+', name):
            b = int(name.rsplit('i', 1)[1])
            return 2 ** b - a[0] if a[0] >> (b - 1) else a[0]
        if re.match(r'llvm\.(memcpy|memmove)', name):
            d, s, n = a[0], a[1], a[2]
            if not isinstance(n, int):
                raise Unsupported('memcpy')
            if n == 0:
                return None
            src = self.base(s.b)
            items = [(o - s.o, v) for o, v in src.items() if s.o <= o < s.o + n]
            dm = self.base(d.b)
            for k in [k for k in dm if d.o <= k < d.o + n]:
                del dm[k]
            for o, v in items:
                dm[d.o + o] = v
            return None
        if name.startswith('llvm.memset'):
            d, v, n = a[0], a[1], a[2]
            if not isinstance(n, int) or v != 0:
                raise Unsupported('memset')
            dm = self.base(d.b)
            for k in [k for k in dm if d.o - 7 <= k < d.o + n and k + dm[k][0] > d.o]:
                del dm[k]
            for k in range(d.o, d.o + n // 8 * 8, 8):
                dm[k] = (8, 0)
            for k in range(d.o + n // 8 * 8, d.o + n):
                dm[k] = (1, 0)
            return None
        if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t'):
            return self.new('heap')
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t', '__cxa_guard_release', '_ZdaPvm', '__cxa_atexit'):
            return None if name != '__cxa_atexit' else 0
        if name == '__cxa_guard_acquire':
            return 1
        if re.match(r'_ZN4absl(6debian\d+|\d+\w+)?5Mutex(C|D|\d*(Lock|Unlock|ReaderLock|ReaderUnlock|AssertHeld|AssertReaderHeld|WriterLock|WriterUnlock))', name) or re.match(r'_ZN?K?4absl\w*5Mutex', name) and re.search(r'(Lock|Unlock|Held)Ev$|5Mutex[CD]\dEv$', name):
            # Each probe is sequential.
            return None
        if name.startswith('_ZNSt7__cxx1112basic_string'):
            # The contents of strings are not followed.
            return a[0]
        if name == 'frexp' and isinstance(a[0], V) and a[0].const() is not None:
            import math
            m, e = math.frexp(a[0].const())
            self.store('i32', e & 0xffffffff, a[1])
            return self.rat(Fr(m))
        if name == '__dynamic_cast':
            return self.dynamic_cast(a[0], a[2])
        if 'check_failed' in name or name in ('llvm.trap', 'abort', 'llvm.ubsantrap') or name.startswith('_ZSt') and '__throw' in name:
            raise Trap()
        if name in self.m.fns:
            return self.call(name, a)
        if name == 'sin_cos' and isinstance(a[0], V):
            return [self.apply('sin', a), self.apply('cos', a)]
        f = base if re.fullmatch(r'(sin|cos|tan|asin|acos|atan|atan2|exp|log|log2|pow|cbrt|hypot|floor|ceil|round|rint|nearbyint|trunc|roundeven|sinh|cosh|tanh|asinh|acosh|atanh|powi|sincos)', base) else None
        if f is None:
            mm = re.match(r'_ZN9principia8numerics\d+_\w+?8internal\d+(\w+?)E', name)
            f = mm.group(1).lower() if mm else None
        if f and all(isinstance(x, V) for x in a):
            cs = [x.const() for x in a]
            if f in ('floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'roundeven') and cs[0] is not None:
                import math
                c = cs[0]
                r = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(f, lambda x: round(x))(c)
                return self.rat(r)
            if f == 'pow' and None not in cs and cs[0] > 0:
                # An exact power, if there is one.
                r = exact_root(cs[0], cs[1].denominator)
                if r is not None:
                    return self.rat(r ** cs[1].numerator)
            return self.dom.function(f, *a)
        raise Unsupported('call of ' + name)


def exact_root(x, n):
    if n > 64:
        return None
    def root(k):
        r = round(k ** (1 / n)) if k < 2 ** 900 else 0
        return next((c for c in (r - 1, r, r + 1) if c >= 0 and c ** n == k), None)
    p, q = root(x.numerator), root(x.denominator)
    return None if p is None or not q else Fr(p, q)


def paths(mod, fn, setup, assume=None, calls=None, limit=64):
    """Runs `fn` on all paths.  `setup(machine)` returns the arguments.  Yields (machine, returned value)."""
    todo = [[]]
    n = 0
    while todo:
        dec = todo.pop()
        n += 1
        if n > limit:
            raise Unsupported('too many paths')
        m = setup(dec)
        try:
            r = m.call(fn, m.arguments)
            ok = True
        except Trap:
            ok = False
        for i in range(len(dec), len(m.used)):
            todo.append(m.used[:i] + [not m.used[i]])
        if ok:
            yield m, r


def compile_ir(src, extra=(), interface=False, opt='-O2'):
    path = astlib.tu_path(src)
    out = os.path.join(BUILD, 'probes', sha('irval', source_hash(), src, opt, *extra) + '.ll')
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = vbuild.run([CLANG] + astlib.flags(interface) + list(extra) + [
            '-w', opt, '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-math-errno', '-fno-exceptions', '-fno-builtin-printf',
            '-fconstexpr-steps=100000000', '-fno-stack-protector', '-S', '-emit-llvm', path, '-o', tmp], cwd=REPO)
        if r.returncode:
            raise Broken('cannot compile the probe:\n' + astlib.diagnostics(r)[:3000])
        os.rename(tmp, out)
    with open(out, encoding='utf-8', errors='replace') as f:
        return Module(f.read())
