#!/usr/bin/env python3
import os, sys, itertools, math, json
from fractions import Fraction
from functools import lru_cache
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, astlib
from vlib import Broken

RULE = ('The compile-time values of every coefficient of every integration method of the library are '
        'evaluated by the compiler and substituted into the algebraic order conditions of its family '
        '(rooted trees, bicoloured Nyström trees, words of the free associative algebra, multistep '
        'moment equations) for each order that the method declares, together with the stage-consistency '
        'conditions and the declared reversibility, first-same-as-last, composition and stage-count facts.')

FAMILIES = {
    'EmbeddedExplicitRungeKutta': 'ERK',
    'EmbeddedExplicitRungeKuttaNyström': 'ERKN',
    'EmbeddedExplicitGeneralizedRungeKuttaNyström': 'ERKNG',
    'ExplicitLinearMultistep': 'ELM',
    'ExplicitRungeKutta': 'RK',
    'SymmetricLinearMultistep': 'SLM',
    'SymplecticRungeKuttaNyström': 'SRKN',
    'SymplecticPartitionedRungeKutta': 'SPRK',
}
NS = 'principia::integrators::_methods::internal::'
# A coefficient of the tables has at least 15 significant digits; the residuals
# on the confirmed tables are all below TOL/4.
TOL = 4e-13
# Methods whose published coefficients have fewer digits.
PRECISION = {'吉田1990Order8A': 4e-10}


# ---- rooted trees -----------------------------------------------------------
@lru_cache(None)
def forests(total, nyström, generalized):
    """Multisets of children whose orders sum to `total`."""
    items = []
    for r in range(1, total + 1):
        for ch in children(r, nyström, generalized):
            items.append((r, ch))
    res = []

    def rec(start, left, acc):
        if left == 0:
            res.append(tuple(acc)); return
        for i in range(start, len(items)):
            if items[i][0] <= left:
                rec(i, left - items[i][0], acc + [items[i][1]])
    rec(0, total, [])
    return res


@lru_cache(None)
def children(r, nyström, generalized):
    """Possible children of an f-vertex, of order r."""
    if not nyström:
        return [('f', t) for t in trees(r, False, False)]
    out = []
    if r == 1:
        out.append(('leaf',))
    if r >= 2:
        out += [('y', t) for t in trees(r - 1, True, generalized)]
    if generalized:
        out += [('f', t) for t in trees(r, True, True)]
    return out


@lru_cache(None)
def trees(order, nyström, generalized):
    return [fo for fo in forests(order - 1, nyström, generalized)] if order > 1 else [()]


def order_of(t):
    return 1 + sum(order_child(c) for c in t)


def order_child(c):
    return 1 if c[0] == 'leaf' else order_of(c[1]) + (1 if c[0] == 'y' else 0)


def gamma(t):
    g = order_of(t)
    for c in t:
        if c[0] == 'leaf':
            continue
        g *= gamma(c[1])
        if c[0] == 'y':
            g *= order_of(c[1]) + 1
    return g


def weight(t, M, memo):
    """Vector over the stages."""
    if t in memo:
        return memo[t]
    s = M['s']
    w = [1.0] * s
    for c in t:
        if c[0] == 'leaf':
            v = M['c']
        else:
            sub = weight(c[1], M, memo)
            A = M['a'] if (c[0] == 'y' or not M['nyström']) else M['aʹ']
            v = [math.fsum(A[i][j] * sub[j] for j in range(s)) for i in range(s)]
        w = [x * y for x, y in zip(w, v)]
    memo[t] = w
    return w


def lower(flat, s):
    A = [[0.0] * s for _ in range(s)]
    k = 0
    for i in range(s):
        for j in range(i):
            A[i][j] = flat[k]; k += 1
    return A


class Ctx:
    def __init__(self, c):
        self.c = c
        self.worst = {}

    def eq(self, m, key, what, got, want):
        tol = PRECISION.get(m.split(' as ')[0], TOL)
        self.c.obligation(1, '%s: %s' % (m, what))
        d = abs(got - want)
        self.worst[m] = max(self.worst.get(m, 0.0), d)
        if not d <= tol:
            self.c.violation('%s:%s' % (m, key), 'integrators/methods.hpp: ' + m,
                             '%s: %.17g instead of %.17g' % (what, got, want))

    def true(self, m, key, what, cond):
        self.c.obligation(1)
        if not cond:
            self.c.violation('%s:%s' % (m, key), 'integrators/methods.hpp: ' + m, what)


def rk(x, m, v, weights):
    s = int(v['stages'][0]); a = lower(v['a'], s)
    x.true(m, 'sizes', 'inconsistent number of stages', len(v['c']) == s)
    for i in range(s):
        x.eq(m, 'row', 'Σ a[%d, j] = c[%d]' % (i, i), math.fsum(a[i]), v['c'][i])
    M = dict(s=s, c=v['c'], a=a, nyström=False)
    memo = {}
    for wname, order in weights:
        b = v[wname]
        for r in range(1, order + 1):
            for t in trees(r, False, False):
                w = weight(t, M, memo)
                x.eq(m, wname, '%s: order %d condition' % (wname, r),
                     math.fsum(p * q for p, q in zip(b, w)), 1.0 / gamma(t))
    if v['first_same_as_last'][0]:
        last = v['b̂'] if 'b̂' in v else v['b']
        x.true(m, 'fsal', 'declared first-same-as-last but the last stage is not the solution',
               v['c'][-1] == 1.0 and v['c'][0] == 0.0 and a[-1] == last and last[-1] == 0.0)
    x.true(m, 'c0', 'the first stage is not at the beginning of the step', v['c'][0] == 0.0)


def rkn(x, m, v, generalized):
    s = int(v['stages'][0]); a = lower(v['a'], s)
    M = dict(s=s, c=v['c'], a=a, nyström=True)
    for i in range(s):
        x.eq(m, 'row', 'Σ a[%d, j] = c[%d]² / 2' % (i, i), math.fsum(a[i]), v['c'][i] ** 2 / 2)
    if generalized:
        M['aʹ'] = lower(v['aʹ'], s)
        for i in range(s):
            x.eq(m, 'rowʹ', 'Σ aʹ[%d, j] = c[%d]' % (i, i), math.fsum(M['aʹ'][i]), v['c'][i])
    memo = {}
    ho, lo = int(v['higher_order'][0]), int(v['lower_order'][0])
    x.true(m, 'orders', 'the embedded method must have a lower order', lo < ho)
    for b, bp, order in (('b̂', 'b̂ʹ', ho), ('b', 'bʹ', lo)):
        for r in range(1, order + 1):
            for t in trees(r, True, generalized):
                w = weight(t, M, memo)
                x.eq(m, bp, '%s: order %d condition' % (bp, r),
                     math.fsum(p * q for p, q in zip(v[bp], w)), 1.0 / gamma(t))
                if r + 1 <= order:
                    x.eq(m, b, '%s: order %d condition' % (b, r + 1),
                         math.fsum(p * q for p, q in zip(v[b], w)),
                         1.0 / (gamma(t) * (r + 1)))
    if v['first_same_as_last'][0]:
        x.true(m, 'fsal', 'declared first-same-as-last but the last stage is not the solution',
               v['c'][-1] == 1.0 and v['c'][0] == 0.0 and a[-1] == v['b̂'] and v['b̂'][-1] == 0.0 and
               (not generalized or (M['aʹ'][-1] == v['b̂ʹ'] and v['b̂ʹ'][-1] == 0.0)))
    x.true(m, 'c0', 'the first stage is not at the beginning of the step', v['c'][0] == 0.0)


def words_product(seq, order):
    """Product of exponentials exp(x·letter), truncated."""
    cur = {'': 1.0}
    for letter, x in seq:
        if x == 0.0:
            continue
        nxt = {}
        for w, k in cur.items():
            f = k
            for n in range(0, order - len(w) + 1):
                if n:
                    f = f * x / n
                    w = w + letter
                nxt[w] = nxt.get(w, 0.0) + f
        cur = nxt
    return cur


def sprk_conditions(x, m, seq, order, tag):
    p = words_product(seq, order)
    for n in range(1, order + 1):
        for w in itertools.product('AB', repeat=n):
            x.eq(m, tag, '%s: coefficient of %s' % (tag, ''.join(w)), p.get(''.join(w), 0.0),
                 1.0 / math.factorial(n))


def symmetric(seq):
    # Merge equal neighbours and drop zeros, then compare with the reversal.
    out = []
    for l, v in seq:
        if v == 0.0:
            continue
        if out and out[-1][0] == l:
            out[-1] = (l, out[-1][1] + v)
        else:
            out.append((l, v))
    r = out[::-1]
    return len(out) == len(r) and all(p[0] == q[0] and abs(p[1] - q[1]) <= 1e-15 * max(1, abs(p[1]))
                                      for p, q in zip(out, r))


def sprk(x, m, v):
    st = int(v['stages'][0]); a, b = v['a'], v['b']
    ev = int(v['evaluations'][0]); fsal = bool(v['first_same_as_last'][0])
    x.true(m, 'stages', 'inconsistent number of stages', st == len(a) == len(b) == ev + (1 if fsal else 0))
    seq = []
    for i in range(st):
        seq += [('B', b[i]), ('A', a[i])]
    sprk_conditions(x, m, seq, int(v['order'][0]), 'order %d' % int(v['order'][0]))
    x.true(m, 'reversible', 'declared time_reversible = %s but the coefficients say otherwise' %
           bool(v['time_reversible'][0]), symmetric(seq) == bool(v['time_reversible'][0]))
    if fsal:
        x.true(m, 'fsal', 'declared first-same-as-last but its last a does not vanish', a[-1] == 0.0)


def srkn(x, m, v, comp):
    st = int(v['stages'][0]); a, b = v['a'], v['b']
    ev = int(v['evaluations'][0]); cm = comp[int(v['composition'][0])]
    x.true(m, 'stages', 'inconsistent number of stages',
           st == len(a) == len(b) == (ev if cm == 'BA' else ev + 1))
    if cm == 'ABA':
        x.true(m, 'composition', 'declared ABA but b₀ does not vanish', b[0] == 0.0)
    if cm == 'BAB':
        x.true(m, 'composition', 'declared BAB but aᵣ does not vanish', a[-1] == 0.0)
    # As a Nyström method: kick i happens after the drifts a₀…aᵢ₋₁.
    c = [math.fsum(a[:i]) for i in range(st)]
    x.eq(m, 'Σa', 'Σ a = 1', math.fsum(a), 1.0)
    A = [[b[j] * (c[i] - c[j]) if j < i else 0.0 for j in range(st)] for i in range(st)]
    M = dict(s=st, c=c, a=A, nyström=True)
    memo = {}
    order = int(v['order'][0])
    for r in range(1, order + 1):
        for t in trees(r, True, False):
            w = weight(t, M, memo)
            x.eq(m, 'velocity', 'order %d velocity condition' % r,
                 math.fsum(p * q for p, q in zip(b, w)), 1.0 / gamma(t))
            if r + 1 <= order:
                x.eq(m, 'position', 'order %d position condition' % (r + 1),
                     math.fsum(p * (1 - ci) * q for p, ci, q in zip(b, c, w)),
                     1.0 / (gamma(t) * (r + 1)))
    seq = []
    for i in range(st):
        seq += [('B', b[i]), ('A', a[i])]
    x.true(m, 'reversible', 'declared time_reversible = %s but the coefficients say otherwise' %
           bool(v['time_reversible'][0]), symmetric(seq) == bool(v['time_reversible'][0]))


def elm(x, m, v):
    k, order = int(v['steps'][0]), int(v['order'][0])
    F = lambda z: Fraction(z)
    al = [F(z) for z in v['α']]; be = [F(z) / F(v['β_denominator'][0]) for z in v['β_numerator']]
    # Σ α_j y(t - j h) = h Σ β_j y′(t - j h), exact on polynomials.
    x.true(m, 'explicit', 'β₀ must vanish for an explicit method', be[0] == 0)
    x.true(m, 'steps', 'the number of steps is inconsistent with the coefficients',
           all(z == 0 for z in al[k + 1:]) and all(z == 0 for z in be[k + 1:]) and (al[k] != 0 or be[k] != 0))
    for q in range(0, order + 1):
        l = sum(al[j] * Fraction(-j) ** q for j in range(len(al)))
        r = q * sum(be[j] * Fraction(-j) ** (q - 1) for j in range(len(be))) if q else Fraction(0)
        x.true(m, 'moment%d' % q, 'moment condition %d does not hold: %s ≠ %s' % (q, l, r), l == r)


def slm(x, m, v):
    order = int(v['order'][0]); h = order // 2 + 1
    x.true(m, 'half', 'wrong number of coefficients', len(v['α']) == h == len(v['β_numerator']))
    full = lambda z: [Fraction(t) for t in z] + [Fraction(t) for t in z[:-1][::-1]]
    al = full(v['α']); be = [t / Fraction(v['β_denominator'][0]) for t in full(v['β_numerator'])]
    x.true(m, 'normalized', 'α₀ must be 1', al[0] == 1)
    x.true(m, 'explicit', 'β₀ must vanish for an explicit method', be[0] == 0)
    for q in range(0, order + 2):
        l = sum(al[j] * Fraction(-j) ** q for j in range(len(al)))
        r = q * (q - 1) * sum(be[j] * Fraction(-j) ** (q - 2) for j in range(len(be))) if q >= 2 else 0
        x.true(m, 'moment%d' % q, 'moment condition %d does not hold: %s ≠ %s' % (q, l, r), l == r)


def check(c):
    decls = astlib.dump('#include "integrators/methods.hpp"\n', '_methods::')
    methods = {}
    for d in decls:
        for n in astlib.walk(d):
            if n.get('kind') == 'CXXRecordDecl' and n.get('completeDefinition') and n.get('bases'):
                base = n['bases'][0]['type']['qualType'].split('::')[-1]
                if base in FAMILIES and n.get('name') not in FAMILIES and n.get('name') != 'Method':
                    methods[n['name']] = (FAMILIES[base], {
                        k['name'] for k in astlib.kids(n) if k.get('kind') == 'VarDecl'})
    if not methods:
        raise Broken('no integration method found')
    exprs, back = {}, {}
    pre = '''
template<int n> constexpr std::array<double, n> Flat(principia::numerics::_fixed_arrays::FixedVector<double, n> const& v) {
  std::array<double, n> r{}; for (int i = 0; i < n; ++i) { r[i] = v[i]; } return r; }
template<std::int64_t n> constexpr std::array<double, n> FlatV(principia::numerics::_fixed_arrays::FixedVector<double, n> const& v) {
  std::array<double, n> r{}; for (int i = 0; i < n; ++i) { r[i] = v[i]; } return r; }
template<std::int64_t n> constexpr std::array<double, n * (n - 1) / 2> FlatV(principia::numerics::_fixed_arrays::FixedStrictlyLowerTriangularMatrix<double, n> const& v) {
  std::array<double, n * (n - 1) / 2> r{}; int k = 0; for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) { r[k++] = v(i, j); } } return r; }
constexpr double FlatV(double x) { return x; }
template<typename M> struct Expose : M { static constexpr auto composition_ = [] { if constexpr (requires { M::composition; }) { return static_cast<int>(M::composition); } else { return 0; } }(); };
'''
    def add(m, member, expr):
        sym = 'k_%d' % len(exprs)
        exprs[sym] = ('auto', expr)
        back[sym] = (m, member)
    extra_methods = {}
    for m, (fam, members) in methods.items():
        for k in ('c', 'a', 'aʹ', 'b̂', 'b̂ʹ', 'b', 'bʹ', 'α', 'β_numerator'):
            if k in members:
                add(m, k, 'FlatV(%s%s::%s)' % (NS, m, k))
        for k in ('β_denominator',):
            if k in members:
                add(m, k, 'double(%s%s::%s)' % (NS, m, k))
        for k in ('order', 'higher_order', 'lower_order', 'stages', 'first_same_as_last', 'evaluations',
                  'time_reversible', 'kind', 'composition', 'steps'):
            if k in members:
                add(m, k, 'int(%s%s::%s)' % (NS, m, k))
    fs = 'principia::serialization::FixedStepSizeIntegrator::'
    for m, (fam, members) in list(methods.items()):
        if fam == 'SPRK':
            for cm in ('BA', 'ABA', 'BAB'):
                extra_methods[m + ' as ' + cm] = (m, cm)
    for cm in ('BA', 'ABA', 'BAB'):
        add('', cm, 'int(%s%s)' % (fs, cm))
    vals = {}
    for s, v in astlib.constants(['integrators/methods.hpp', 'array'], exprs, prelude=pre).items():
        vals.setdefault(back[s][0], {})[back[s][1]] = v
    comp = {int(vals[''][k][0]): k for k in ('BA', 'ABA', 'BAB')}
    # The conversions of the SPRKs to SRKNs.
    exprs.clear(); back.clear()
    for name, (m, cm) in extra_methods.items():
        fsal = bool(vals[m]['first_same_as_last'][0])
        if (cm == 'BA') == fsal:
            continue
        t = '%sAsSymplecticRungeKuttaNyström<%s%s, %s%s>::Method' % (NS, NS, m, fs, cm)
        for k in ('a', 'b'):
            add(name, k, 'FlatV(%s::%s)' % (t, k))
        for k in ('order', 'stages', 'evaluations', 'time_reversible', 'composition', 'kind'):
            add(name, k, 'int(%s::%s)' % (t, k))
    for s, v in astlib.constants(['integrators/methods.hpp', 'array'], exprs, prelude=pre).items():
        vals.setdefault(back[s][0], {})[back[s][1]] = v

    x = Ctx(c)
    kinds = {}
    count = 0
    for m, v in vals.items():
        if not m:
            continue
        count += 1
        if ' as ' in m:
            fam = 'SRKN'
            base = extra_methods[m][0]
            x.true(m, 'order', 'the conversion changes the order, the reversibility or the kind',
                   all(v[k] == vals[base][k] for k in ('order', 'time_reversible', 'kind', 'evaluations')))
            x.true(m, 'comp', 'the conversion has the wrong composition',
                   comp.get(int(v['composition'][0])) == extra_methods[m][1])
        else:
            fam = methods[m][0]
            k = ('A' if fam.startswith('E') and fam != 'ELM' else 'F', int(v['kind'][0]))
            x.true(m, 'kind', 'has the same serialization kind as %s' % kinds.get(k), k not in kinds)
            kinds[k] = m
        try:
            if fam == 'ERK':
                x.true(m, 'orders', 'the embedded method must have a lower order',
                       v['lower_order'][0] < v['higher_order'][0])
                rk(x, m, v, [('b̂', int(v['higher_order'][0])), ('b', int(v['lower_order'][0]))])
            elif fam == 'RK':
                rk(x, m, v, [('b', int(v['order'][0]))])
            elif fam in ('ERKN', 'ERKNG'):
                rkn(x, m, v, fam == 'ERKNG')
            elif fam == 'ELM':
                elm(x, m, v)
            elif fam == 'SLM':
                slm(x, m, v)
            elif fam == 'SPRK':
                sprk(x, m, v)
            elif fam == 'SRKN':
                srkn(x, m, v, comp)
        except KeyError as e:
            raise Broken('method %s lacks the member %s' % (m, e))
    c.require('methods', count, 55)
    c.coverage['worst_residual'] = max(x.worst.values())
    if os.environ.get('VERBOSE'):
        for m, w in sorted(x.worst.items(), key=lambda t: -t[1])[:60]:
            print('%-50s %.3g' % (m, w))


vlib.main(check, 'C03', 'proof', RULE)
