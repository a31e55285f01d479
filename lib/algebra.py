"""Obligations on the value computed by a probe: identities of rational functions of its inputs.

A probe is a C++ function `extern "C" void f(const double* in, double* out)` which only calls the code under analysis.
It is compiled to LLVM IR, abstracted (irval) to a rational function of its inputs on each path, and that function is
compared, as a normal form, with the definition, written here independently."""
import os, signal, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor
from fractions import Fraction as Fr
import irval
from irval import Cond, Dom, Machine, Ptr, Unsupported, V, compile_ir, paths, UNDEF
from poly import Poly
from vbuild import Broken

sys.setrecursionlimit(20000)


class X:
    """Arithmetic on V with numbers."""
    def __init__(self, dom):
        self.dom = dom

    def __call__(self, c):
        return c if isinstance(c, V) else V(Poly.const(c), None, self.dom)

    def var(self, n):
        return V(Poly.var(n), None, self.dom)

    # Vectors and matrices are lists.
    def add(self, a, b):
        return [self.add(x, y) for x, y in zip(a, b)] if isinstance(a, list) else self(a) + self(b)

    def sub(self, a, b):
        return [self.sub(x, y) for x, y in zip(a, b)] if isinstance(a, list) else self(a) - self(b)

    def neg(self, a):
        return [self.neg(x) for x in a] if isinstance(a, list) else -self(a)

    def mul(self, k, a):
        return [self.mul(k, x) for x in a] if isinstance(a, list) else self(k) * self(a)

    def div(self, a, k):
        return [self.div(x, k) for x in a] if isinstance(a, list) else self(a) / self(k)

    def sum(self, l):
        s = self(0)
        for x in l:
            s = s + self(x)
        return s

    def prod(self, l):
        s = self(1)
        for x in l:
            s = s * self(x)
        return s

    def pow(self, a, n):
        return self.prod([a] * n)

    def dot(self, a, b):
        return self.sum([self(x) * self(y) for x, y in zip(a, b)])

    def cross(self, a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

    def matvec(self, m, v):
        return [self.dot(r, v) for r in m]

    def transpose(self, m):
        return [list(c) for c in zip(*m)]

    def matmul(self, a, b):
        bt = self.transpose(b)
        return [[self.dot(r, c) for c in bt] for r in a]

    def det(self, m):
        n = len(m)
        if n == 1:
            return self(m[0][0])
        s = self(0)
        for j in range(n):
            minor = [r[:j] + r[j + 1:] for r in m[1:]]
            t = self(m[0][j]) * self.det(minor)
            s = s + t if j % 2 == 0 else s - t
        return s

    def eye(self, n):
        return [[self(int(i == j)) for j in range(n)] for i in range(n)]

    def sqrt(self, a):
        return self.dom.square_root(self(a))

    def atom(self, f, *a):
        return self.dom.function(f, *[self(x) for x in a])

    # Quaternions: [w, x, y, z].
    def qmul(self, p, q):
        return [p[0] * q[0] - self.dot(p[1:], q[1:])] + self.add(
            self.add(self.mul(p[0], q[1:]), self.mul(q[0], p[1:])), self.cross(p[1:], q[1:]))

    def conj(self, q):
        return [q[0]] + self.neg(q[1:])

    def rotate(self, q, v):
        """v -> q v q*, for a unit quaternion."""
        return self.qmul(self.qmul(q, [self(0)] + list(v)), self.conj(q))[1:]

    def rotation_matrix(self, q):
        return self.transpose([self.rotate(q, e) for e in self.eye(3)])


def flat(v):
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(x)]
    return [v]


class Obligation:
    """`inputs`: a number of variables, or a function of (X, Dom) giving the values stored in `in`.
    `spec(x, i, conds)`: the expected outputs, None for those unconstrained; or, with `relation`, a list of pairs which
    must be equal, as `relation(x, i, out)`; or, with `points`, a predicate of the values of the inputs and of the outputs,
    for what is not an identity (e.g., an inequality), which must not be refuted at any of the points tried of any path."""
    def __init__(self, name, body, inputs, spec=None, nout=None, units=(), relation=None, assume=None, rules=None,
                 where='', tol=Fr(1, 10 ** 13), limit=64, abs_atoms=False, positive=(), guarded=False,
                 points=None):
        self.__dict__.update(locals())
        del self.__dict__['self']


def prepare(ob):
    dom = Dom()
    x = X(dom)
    dom.positive = set(ob.positive)
    dom.abs_atoms = ob.abs_atoms
    if isinstance(ob.inputs, int):
        for u in ob.units:
            dom.rules['x%d' % u] = (2, Poly.const(1) - Poly.var('x%d' % (u + 1)) * Poly.var('x%d' % (u + 1))
                                    - Poly.var('x%d' % (u + 2)) * Poly.var('x%d' % (u + 2))
                                    - Poly.var('x%d' % (u + 3)) * Poly.var('x%d' % (u + 3)))
        ins = [x.var('x%d' % i) for i in range(ob.inputs)]
    else:
        ins = ob.inputs(x)
    if ob.rules:
        ob.rules(x, ins)
    return dom, x, ins


class Sample:
    """The values of the variables and of the atoms at a point."""
    def __init__(self, dom, rng):
        import mpmath
        self.mp, self.dom, self.rng, self.env = mpmath, dom, rng, {}

    def value(self, name):
        if name in self.env:
            return self.env[name]
        mp = self.mp
        if name in self.dom.args:
            f, args = self.dom.args[name]
            a = [self.v(x) for x in args]
            names = {'fabs': 'fabs', 'abs': 'fabs', 'log2': lambda z: mp.log(z, 2), 'pow': mp.power, 'powi': mp.power, 'round': mp.nint,
                     'rint': mp.nint, 'nearbyint': mp.nint, 'roundeven': mp.nint, 'hypot': mp.hypot,
                     'trunc': lambda z: mp.floor(z) if z > 0 else mp.ceil(z)}
            g = names.get(f, f)
            if isinstance(g, str):
                g = getattr(mp, g, None)
            if g is None:
                raise Unsupported('value of ' + f)
            r = g(*a)
            if isinstance(r, mp.mpc):
                raise ArithmeticError
        elif name in self.dom.rules:
            n, p = self.dom.rules[name]
            r = self.p(p)
            if r < 0 or n != 2:
                raise ArithmeticError
            r = mp.sqrt(r) * (1 if name in self.dom.positive else self.rng.choice((-1, 1)))
        else:
            unit = any(name in repr(p) for _, p in self.dom.rules.values())
            r = mp.mpf(self.rng.randint(-997, 997)) / (1009 * self.rng.choice((1, 1.8)) if unit else self.rng.choice((100, 400, 1009)))
            if name in self.dom.positive:
                r = abs(r)
        self.env[name] = r
        return r

    def p(self, q):
        t = self.mp.mpf(0)
        for k, c in q.t.items():
            m = self.mp.mpf(c.numerator) / c.denominator
            for v, e in k:
                m *= self.value(v) ** e
            t += m
        return t

    def v(self, x):
        d = self.p(x.d)
        if d == 0:
            raise ArithmeticError
        return self.p(x.n) / d


def satisfied(sample, conds):
    for c, r in conds:
        if not isinstance(c.a, V):
            continue
        d = sample.v(c.a) - sample.v(c.b)
        t = {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}.get(c.op)
        if t is not None and t != r:
            return False
    return True


def differ(dom, conds, a, b):
    """At points of the path, do `a` and `b` differ?  None if no point is found."""
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import mpmath, random
    rng = random.Random(1)
    found = 0
    with mpmath.workdps(60):
        for _ in range(3000):
            s = Sample(dom, rng)
            try:
                if not satisfied(s, conds):
                    continue
                x, y = s.v(a), s.v(b)
            except (ArithmeticError, ValueError):
                continue
            found += 1
            if abs(x - y) > 1e-11 * (abs(x) + abs(y) + 1e-9):
                return True
            if found == 8:
                return False
    return False if found else None


def refuted(dom, conds, ins, outs, predicate):
    """A point of the path where the predicate is false."""
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import mpmath, random
    rng = random.Random(1)
    found = 0
    with mpmath.workdps(60):
        for _ in range(3000):
            s = Sample(dom, rng)
            try:
                if not satisfied(s, conds):
                    continue
                i, o = [s.v(v) for v in ins], [s.v(v) for v in outs]
            except (ArithmeticError, ValueError):
                continue
            if not predicate(i, o):
                return 'with %s, the result is %s' % (', '.join(mpmath.nstr(v, 8) for v in i), ', '.join(mpmath.nstr(v, 8) for v in o))
            found += 1
            if found == 20:
                return None
    if not found:
        raise Unreachable()


class Unreachable(Exception):
    """No point satisfies the conditions of the path."""


def equal(dom, conds, a, b, tol):
    """Equality, as normal forms if possible, and otherwise at points of the path."""
    if a.same(b) or (tol and a.close(b, tol)):
        return True
    d = differ(dom, conds, a, b)
    if d is None:
        raise Unreachable()
    return not d


def fname(name):
    return 'probe_' + ''.join(c if c.isalnum() and c.isascii() else '_' if c == ' ' else '_%x' % ord(c) for c in name)


def nonzero(c, d):
    """Does a != b mean that d is not zero?"""
    if not isinstance(c.a, V):
        return False
    e = c.a - c.b
    return not e.n == Poly() and not d.n == Poly() and (e / d).const() is not None


def decide(mod, ob):
    """('holds', paths) or ('fails', message) or ('undecided', reason)."""
    try:
        dom, x, ins = prepare(ob)

        def setup(dec):
            m = Machine(mod, dom, dec, assume=(lambda c: ob.assume(x, c)) if ob.assume else None)
            i, o = m.new('in'), m.new('out')
            for k, v in enumerate(flat(ins)):
                m.store('double', v, Ptr(i.b, 8 * k))
            m.arguments = [i, o]
            return m
        n = 0
        for m, _ in paths(mod, fname(ob.name), setup, limit=ob.limit):
            try:
                o = m.arguments[1]

                def out(k):
                    v = m.load('double', Ptr(o.b, 8 * k))
                    if v is UNDEF:
                        return None
                    if not isinstance(v, V):
                        raise Unsupported('output %r' % (v,))
                    return v
                under = (' when ' + ' and '.join(('%r' if r else 'not %r') % (c,) for c, r in m.conds if isinstance(c.a, V)))[:600] if any(isinstance(c.a, V) for c, r in m.conds) else ''
                if ob.guarded:
                    # Every divisor is checked on the path.
                    for d in m.divisions:
                        if not any((c.op == 'ne' and r or c.op == 'eq' and not r) and nonzero(c, d) for c, r in m.conds):
                            return 'fails', 'a division by %s, which is not checked%s' % (repr(d)[:300], under)
                if ob.points:
                    outs = [out(k) for k in range(ob.nout)]
                    for k, v in enumerate(outs):
                        if v is None:
                            return 'fails', 'output %d is not computed%s' % (k, under)
                    bad = refuted(dom, m.conds, [x(v) for v in flat(ins)], outs, ob.points)
                    if bad:
                        return 'fails', '%s%s' % (bad, under)
                elif ob.relation:
                    outs = [out(k) for k in range(ob.nout)]
                    for k, v in enumerate(outs):
                        if v is None:
                            return 'fails', 'output %d is not computed%s' % (k, under)
                    pairs = ob.relation(x, ins, outs)
                    for what, (a, b) in enumerate(pairs):
                        for a1, b1 in zip(flat(a), flat(b), strict=True):
                            a1, b1 = x(a1), x(b1)
                            if not equal(dom, m.conds, a1, b1, ob.tol):
                                return 'fails', 'relation %d: %s instead of %s%s' % (what, repr(a1)[:400], repr(b1)[:400], under)
                else:
                    try:
                        want = flat(ob.spec(x, ins, conds=m.conds) if 'conds' in ob.spec.__code__.co_varnames[:3] else ob.spec(x, ins))
                    except Unsupported as e:
                        if 'division by zero' in str(e):
                            continue
                        raise
                    for k, e in enumerate(want):
                        if e is None:
                            continue
                        e = x(e)
                        v = out(k)
                        if v is None:
                            return 'fails', 'output %d is not computed%s' % (k, under)
                        if not equal(dom, m.conds, v, e, ob.tol):
                            return 'fails', 'output %d is %s instead of %s%s' % (k, repr(v)[:500], repr(e)[:500], under)
                n += 1
            except Unreachable:
                continue
        if not n:
            return 'undecided', 'no path'
        return 'holds', n
    except Unsupported as e:
        return 'undecided', str(e)
    except (KeyError, AttributeError, TypeError, ValueError, IndexError, ZeroDivisionError, RecursionError, AssertionError) as e:
        if os.environ.get('ALGEBRA_DEBUG'):
            traceback.print_exc()
        return 'undecided', '%s: %s' % (type(e).__name__, e)


def source(prelude, obs):
    s = prelude
    for ob in obs:
        s += 'extern "C" void %s(const double* __restrict in, double* __restrict out) {\n%s\n}\n' % (fname(ob.name), ob.body)
    return s



GROUPS = {}
MODULES = {}


class Timeout(BaseException):
    pass


def alarm(*_):
    raise Timeout()


def build(task):
    """Compiles the probes of a group; those which do not compile are found by bisection.  Yields (lo, hi, error)."""
    gname, lo, hi = task
    prelude, obs, extra = GROUPS[gname]
    try:
        compile_ir(source(prelude, obs[lo:hi]), extra)
        return [(gname, lo, hi, None)]
    except Broken as e:
        if hi - lo == 1:
            return [(gname, lo, hi, str(e)[:300])]
        if (lo, hi) == (0, len(obs)):
            # Maybe none of them do.
            try:
                compile_ir(prelude, extra)
            except Broken as e:
                return [(gname, k, k + 1, str(e)[:300]) for k in range(lo, hi)]
        h = (lo + hi) // 2
        return build((gname, lo, h)) + build((gname, h, hi))


def work(task):
    gname, lo, hi, k, seconds = task
    prelude, obs, extra = GROUPS[gname]
    key = (gname, lo, hi)
    t0 = time.time()
    if key not in MODULES:
        MODULES.clear()
        MODULES[key] = compile_ir(source(prelude, obs[lo:hi]), extra)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(seconds)
    try:
        r = decide(MODULES[key], obs[k])
    except Timeout:
        r = ('undecided', 'more than %d s' % seconds)
    finally:
        signal.alarm(0)
    if os.environ.get('ALGEBRA_DEBUG'):
        print(gname, '|', obs[k].name, r[0], r[1] if r[0] != 'holds' else '', '%.1f s' % (time.time() - t0), flush=True)
    return gname, obs[k].name, r, time.time() - t0


def run(check, groups, least=0.6, workers=8, chunk=60, seconds=int(os.environ.get("ALGEBRA_SECONDS", "60"))):
    """Decides all obligations of `groups`: name -> (prelude, obligations, extra flags)."""
    jobs = []
    if os.environ.get('ALGEBRA_ONLY'):
        groups = {k: v for k, v in groups.items() if k in os.environ['ALGEBRA_ONLY'].split(',')}
    for g, (prelude, obs, extra) in groups.items():
        GROUPS[g] = (prelude, obs, tuple(extra))
        names = [fname(o.name) for o in obs]
        assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
        for lo in range(0, len(obs), chunk):
            jobs.append((g, lo, min(len(obs), lo + chunk)))
    undecided, held, npaths = [], 0, 0
    where = {(g, o.name): o.where for g, (p, obs, e) in groups.items() for o in obs}
    tasks = []
    with ProcessPoolExecutor(workers) as ex:
        for res in ex.map(build, jobs):
            for g, lo, hi, error in res:
                if error:
                    undecided.append('%s %s: the probe does not compile: %s' % (g, groups[g][1][lo].name, error))
                else:
                    tasks += [(g, lo, hi, k, seconds) for k in range(lo, hi)]
    with ProcessPoolExecutor(workers) as ex:
        for g, name, (verdict, info), t in ex.map(work, tasks, chunksize=4):
            if verdict == 'fails':
                check.violation(name, where[g, name], '%s (%s): %s' % (name, g, info))
                check.obligation()
            elif verdict == 'undecided':
                undecided.append('%s %s: %s' % (g, name, info[:200]))
            else:
                held += 1
                npaths += info
                check.obligation(sample='%s: %s' % (g, name) if held % 25 == 1 else None)
    check.coverage['identities_proved'] = held
    check.coverage['paths'] = npaths
    check.coverage['undecided'] = len(undecided)
    check.coverage['undecided_list'] = undecided[:40]
    if os.environ.get('ALGEBRA_DEBUG'):
        print('\n'.join(undecided))
    total = sum(len(o) for _, o, _ in groups.values())
    if held < least * total and not check.viol:
        raise Broken('only %d of %d identities are decided: %s' % (held, total, undecided[:3]))
