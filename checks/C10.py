#!/usr/bin/env python3
import math, os, re, sys
from fractions import Fraction as Fr
from functools import lru_cache
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, '..', 'lib')]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import mpmath
from mpmath import mp, mpf
import astlib, cxx, expr, flow, vlib
from poly import Poly
from vlib import Broken

RULE = ('Every constant of the tables is obtained from the compiler (constant evaluation of the headers) or, for the '
        'polynomials of the source files, by exact evaluation of their initializers; it is compared with the quantity '
        'that the table approximates, recomputed independently in exact or 60-digit arithmetic.')
mp.dps = 60
N = 'principia::numerics::'
PRELUDE = '''
#include <array>
#include <tuple>
namespace verif {
template<int r, int c, typename M> constexpr auto pairs(M const& m) {
  std::array<double, 2 * r * c> a{};
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) {
    auto const& [x, y] = m(i, j);
    a[2 * (c * i + j)] = x; a[2 * (c * i + j) + 1] = y; }
  return a; }
template<int r, int c, typename M> constexpr auto matrix(M const& m) {
  std::array<double, r * c> a{};
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) a[c * i + j] = m(i, j);
  return a; }
// Lower triangular, `strict` or not; the rows from 0 to n - 1.
template<int n, bool strict, typename M> constexpr auto lower(M const& m) {
  std::array<double, (strict ? n * (n - 1) : n * (n + 1)) / 2> a{};
  int k = 0;
  for (int i = 0; i < n; ++i) for (int j = 0; strict ? j < i : j <= i; ++j) a[k++] = m(i, j);
  return a; }
template<typename T> constexpr auto table(T const& t) {
  std::array<double, 3 * std::tuple_size_v<T>> a{};
  for (std::size_t i = 0; i < std::tuple_size_v<T>; ++i) {
    a[3 * i] = t[i].x; a[3 * i + 1] = t[i].sin_x; a[3 * i + 2] = t[i].cos_x; }
  return a; }
template<int d, int... k>
constexpr auto legendre(std::integer_sequence<int, k...>) {
  auto const p = principia::numerics::_legendre::internal::LegendrePolynomial<d>();
  return std::array<double, d + 1>{get<k>(p.coefficients_)...};
}
}
'''
HDR = 'numerics/%s.mathematica.h'


def ulps(got, want):
    """The distance of `got` from `want` in units of the last place of `want`."""
    if want == 0:
        return 0 if got == 0 else mp.inf
    e = mpmath.frexp(abs(mpf(want)))[1]
    return abs(mpf(got) - mpf(want)) / mpf(2) ** (e - 53)


class T:
    """Compares the entries of a table."""

    def __init__(self, c, key, file, what):
        self.c, self.key, self.file, self.what, self.n, self.bad = c, key, file, what, 0, []

    def eq(self, idx, got, want, tol=1):
        self.n += 1
        if got is None or ulps(got, want) > tol:
            self.bad.append((idx, got, want))

    def ok(self, idx, cond, got, want):
        self.n += 1
        if not cond:
            self.bad.append((idx, got, want))

    def done(self):
        self.c.obligation(self.n, {'table': self.key, 'entries': self.n})
        for idx, got, want in self.bad[:20]:
            self.c.violation('%s[%s]' % (self.key, idx), self.file,
                             '%s, entry %s, is %s but must be %s' % (
                                 self.what, idx, got, mpmath.nstr(want, 20) if isinstance(want, mpf) else want))
        return self.n


# ------------------------------------------------------------------------------------------------ compiler's constants

def exprs():
    ex = {}
    g = lambda ns, n: N + ns + '::internal::' + n
    ex['glw'] = 'verif::lower<51, true>(%s)' % g('_gauss_legendre_weights', 'GaussLegendreWeights')
    ex['glr'] = 'verif::lower<51, true>(%s)' % g('_legendre_roots', 'LegendreRoots')
    ex['lnf'] = 'verif::lower<51, false>(%s)' % g('_legendre_normalization_factor', 'LegendreNormalizationFactor')
    ex['max'] = 'verif::lower<51, false>(%s)' % g('_max_abs_normalized_associated_legendre_function',
                                                  'MaxAbsNormalizedAssociatedLegendreFunction')
    ex['ph'] = g('_payne_hanek', 'PayneHanekChunks')
    ex['acc'] = 'verif::table(%s)' % g('_accurate_tables', 'SinCosAccurateTable')
    for n in range(1, 10):
        ex['fd%d' % n] = 'verif::matrix<%d, %d>(std::get<%d>(%s))' % (
            n, n, n - 1, g('_finite_difference_coefficients', 'Numerators'))
    ex['fdd'] = g('_finite_difference_coefficients', 'Denominators')
    for d in range(3, 18):
        for s, b in (('c', 'чебышёв'), ('m', 'monomial')):
            ex['nh%s%d' % (s, d)] = 'verif::pairs<%d, 9>(%s)' % (d + 1, g(
                '_newhall_matrices', 'newhall_c_matrix_%s_degree_%d_divisions_8_w04' % (b, d)))
    for d in range(0, 16):
        ex['leg%d' % d] = 'verif::legendre<%d>(std::make_integer_sequence<int, %d>())' % (d, d + 1)
    return {k: ('auto', v) for k, v in ex.items()}


def cho_formulas():
    """{order: numerators and denominator}."""
    t, out = cxx.tokens('integrators/cohen_hubbard_oesterwinter_body.hpp'), {}
    for i in range(len(t) - 6):
        if t[i] == 'CohenHubbardOesterwinterOrder' and t[i + 1] == '<' and t[i + 2].isdigit() and t[i + 3] == '>' and \
                t[i + 6] == '{':
            body = t[i + 7:cxx.match(t, i + 6)]
            d = {}
            for j in range(len(body) - 2):
                if body[j] == '.' and body[j + 1] in ('numerators', 'denominator'):
                    k = j + 2
                    while k < len(body) and body[k] not in (',', '}', ';'):
                        k = cxx.match(body, k) + 1 if body[k] in cxx.OPEN else k + 1
                    x = body[j + 2:k]
                    d[str(body[j + 1])] = expr.try_parse(x[1:] if x[0] == '=' else x)
            n, den = d.get('numerators'), d.get('denominator')
            while n and n[0] == 'init' and len(n[2]) == 1 and n[2][0][0] == 'init':
                n = n[2][0]
            if n and n[0] == 'init' and den:
                v = [expr.value(x) for x in n[2]] + [expr.value(den)]
                if None not in v:
                    out[int(t[i + 2])] = v
    return out


def legendre_poly(n):
    """Coefficients, exactly, by Bonnet's recurrence."""
    p0, p1 = [Fr(1)], [Fr(0), Fr(1)]
    if n == 0:
        return p0
    for k in range(1, n):
        q = [Fr(0)] + [Fr(2 * k + 1, k + 1) * a for a in p1]
        for i, a in enumerate(p0):
            q[i] -= Fr(k, k + 1) * a
        p0, p1 = p1, q
    return p1


def gauss(n):
    """Nodes and weights of the Gauss-Legendre quadrature."""
    out = []
    with mpmath.workdps(40):
        for k in range(n):
            x = mpmath.cos(mp.pi * (k + mpf(3) / 4) / (n + mpf(1) / 2))
            for _ in range(8):
                p0, p1 = mpf(1), x
                for j in range(1, n):
                    p0, p1 = p1, ((2 * j + 1) * x * p1 - j * p0) / (j + 1)
                d = n * (x * p1 - p0) / (x * x - 1)
                dx = p1 / d
                x -= dx
                if abs(dx) < mpf(10) ** -30:
                    break
            p0, p1 = mpf(1), x
            for j in range(1, n):
                p0, p1 = p1, ((2 * j + 1) * x * p1 - j * p0) / (j + 1)
            d = n * (x * p1 - p0) / (x * x - 1)
            if n % 2 == 1 and k == n // 2:
                x = mpf(0)
            out.append((x, 2 / ((1 - x * x) * d * d)))
    return sorted(out)


def check_gauss(c, v):
    w, r = T(c, 'gauss_legendre_weights', HDR % 'gauss_legendre_weights', 'the weight of the Gauss-Legendre quadrature'), \
        T(c, 'legendre_roots', HDR % 'legendre_roots', 'the root of the Legendre polynomial')
    k = 0
    for n in range(1, 51):
        for i, (x, wt) in enumerate(gauss(n)):
            r.eq('n=%d, k=%d' % (n, i), v['glr'][k], x)
            w.eq('n=%d, k=%d' % (n, i), v['glw'][k], wt)
            k += 1
    return w.done() + r.done()


def check_normalization(c, v):
    t = T(c, 'legendre_normalization_factor', HDR % 'legendre_normalization_factor', 'the normalization factor')
    k = 0
    for n in range(51):
        for m in range(n + 1):
            f = mpmath.sqrt(mpf((1 if m == 0 else 2) * (2 * n + 1) * math.factorial(n - m)) / math.factorial(n + m))
            t.eq('n=%d, m=%d' % (n, m), v['lnf'][k], f)
            k += 1
    return t.done()


def normalized(nmax, theta):
    """P[m][n]: the normalized associated Legendre functions at cos θ, without the Condon-Shortley phase."""
    s, x = math.sin(theta), math.cos(theta)
    out = []
    pmm = 1.0
    for m in range(nmax + 1):
        if m:
            pmm *= s * math.sqrt((2 * m + 1) / (2 * m) * (2 if m == 1 else 1))
        row = {m: pmm}
        if m < nmax:
            row[m + 1] = math.sqrt(2 * m + 3) * x * pmm
        for n in range(m + 2, nmax + 1):
            a = math.sqrt((4 * n * n - 1) / (n * n - m * m))
            b = math.sqrt(((n - 1) ** 2 - m * m) / (4 * (n - 1) ** 2 - 1))
            row[n] = a * (x * row[n - 1] - b * row[n - 2])
        out.append(row)
    return out


def check_max(c, v):
    t = T(c, 'max_abs_normalized_associated_legendre_function',
          HDR % 'max_abs_normalized_associated_legendre_function',
          'the maximum of the absolute value of the normalized associated Legendre function')
    M = 800
    best = {}
    vals = []
    for i in range(M + 1):
        th = (math.pi / 2) * i / M
        p = normalized(50, th)
        vals.append(p)
        for m in range(51):
            for n, y in p[m].items():
                if abs(y) > best.get((n, m), (-1, 0))[0]:
                    best[n, m] = (abs(y), i)

    def one(n, m, theta):
        s, x = math.sin(theta), math.cos(theta)
        p = 1.0
        for j in range(1, m + 1):
            p *= s * math.sqrt((2 * j + 1) / (2 * j) * (2 if j == 1 else 1))
        if n == m:
            return p
        q = math.sqrt(2 * m + 3) * x * p
        for j in range(m + 2, n + 1):
            a = math.sqrt((4 * j * j - 1) / (j * j - m * m))
            b = math.sqrt(((j - 1) ** 2 - m * m) / (4 * (j - 1) ** 2 - 1))
            p, q = q, a * (x * q - b * p)
        return q

    k = 0
    g = (math.sqrt(5) - 1) / 2
    for n in range(51):
        for m in range(n + 1):
            y, i = best[n, m]
            lo, hi = (math.pi / 2) * max(0, i - 1) / M, (math.pi / 2) * min(M, i + 1) / M
            f = lambda th: abs(one(n, m, th))
            for _ in range(40):
                a, b = hi - g * (hi - lo), lo + g * (hi - lo)
                if f(a) > f(b):
                    hi = b
                else:
                    lo = a
            y = max(y, f((lo + hi) / 2))
            t.ok('n=%d, m=%d' % (n, m), abs(v['max'][k] - y) <= 2e-12 * y, v['max'][k], y)
            k += 1
    return t.done()


def check_finite_differences(c, v):
    t = T(c, 'finite_difference_coefficients', HDR % 'finite_difference_coefficients',
          'the coefficient of the finite difference')
    den = v['fdd']
    for n in range(1, 10):
        m = v['fd%d' % n]
        if len(m) < n * n:
            m = m + [0.0] * (n * n - len(m))
        for off in range(n):
            # The derivative, at the node `off`, of the Lagrange polynomial of the node j.
            for j in range(n):
                if n == 1:
                    w = Fr(0)
                elif j == off:
                    w = sum((Fr(1, off - i) for i in range(n) if i != off), Fr(0))
                else:
                    w = Fr(1, j - off)
                    for i in range(n):
                        if i not in (j, off):
                            w *= Fr(off - i, j - i)
                t.ok('n=%d, offset=%d, j=%d' % (n, off, j), Fr(m[off * n + j]) == w * Fr(den[n - 1]),
                     '%g/%g' % (m[off * n + j], den[n - 1]), w)
    return t.done()


def chebyshev(n):
    t0, t1 = [Fr(1)], [Fr(0), Fr(1)]
    if n == 0:
        return t0
    for _ in range(1, n):
        q = [Fr(0)] + [2 * a for a in t1]
        for i, a in enumerate(t0):
            q[i] -= a
        t0, t1 = t1, q
    return t1


def peval(p, x):
    r = Fr(0)
    for a in reversed(p):
        r = r * x + a
    return r


def solve(A, B):
    """A⁻¹B, exactly."""
    n, m = len(A), len(B[0])
    M = [list(a) + list(b) for a, b in zip(A, B)]
    for i in range(n):
        p = next(r for r in range(i, n) if M[r][i] != 0)
        M[i], M[p] = M[p], M[i]
        inv = 1 / M[i][i]
        M[i] = [x * inv for x in M[i]]
        for r in range(n):
            if r != i and M[r][i] != 0:
                f = M[r][i]
                M[r] = [x - f * y for x, y in zip(M[r], M[i])]
    return [row[n:] for row in M]


def newhall(d):
    """The matrix C of [New89] for 8 divisions and a weight of 0.4, with the largest time first."""
    cheb = [chebyshev(j) for j in range(d + 1)]
    dch = [[i * a for i, a in enumerate(p)][1:] or [Fr(0)] for p in cheb]
    times = [Fr(4 - i, 4) for i in range(9)]
    rows, wt = [], []
    for x in times:
        rows.append([peval(p, x) for p in cheb]); wt.append(Fr(1))
        rows.append([peval(p, x) for p in dch]); wt.append(Fr(4, 25))
    n = d + 1
    A = [[Fr(0)] * (n + 4) for _ in range(n + 4)]
    B = [[Fr(0)] * 18 for _ in range(n + 4)]
    for i in range(n):
        for j in range(n):
            A[i][j] = sum(w * r[i] * r[j] for r, w in zip(rows, wt))
        for k in range(18):
            B[i][k] = rows[k][i] * wt[k]
    # The positions and velocities at the ends are interpolated.
    for q, k in enumerate((0, 1, 16, 17)):
        for j in range(n):
            A[n + q][j] = A[j][n + q] = rows[k][j]
        B[n + q][k] = Fr(1)
    C = solve(A, B)[:n]
    mono = [[sum((C[j][k] * cheb[j][i] for j in range(i, n) if i < len(cheb[j])), Fr(0)) for k in range(18)]
            for i in range(n)]
    return C, mono


def check_newhall(c, v):
    t = T(c, 'newhall_matrices', HDR % 'newhall_matrices', "the element of Newhall's matrix")
    for d in range(3, 18):
        for s, M in zip('cm', newhall(d)):
            got = v['nh%s%d' % (s, d)]
            for i in range(d + 1):
                for k in range(18):
                    g = got[18 * i + k]
                    name = '%s, degree=%d, row=%d, node=%d, %s' % (
                        'Чебышёв' if s == 'c' else 'monomial', d, i, k // 2, 'velocity' if k % 2 else 'position')
                    w = M[i][k]
                    t.eq(name, g, mpf(w.numerator) / w.denominator, 8)
    return t.done()


def check_payne_hanek(c, v):
    t = T(c, 'payne_hanek', HDR % 'payne_hanek', 'the chunk of bits of 4/π')
    with mpmath.workdps(400):
        x = 4 / mp.pi
        prev = 0
        for i, g in enumerate(v['ph']):
            e = 25 + 26 * i
            cur = int(mpmath.floor(x * mpf(2) ** e))
            want = cur - prev * 2 ** 26
            prev = cur
            t.ok(i, Fr(g) == Fr(want, 2 ** e) or e > 1074 and abs(Fr(g) - Fr(want, 2 ** e)) < Fr(1, 2 ** 1074), float(g).hex(), Fr(want, 2 ** e))
        t.ok('size', 25 + 26 * (len(v['ph']) - 1) >= 1074, len(v['ph']), 'enough chunks for the exponent -1074')
    return t.done()


def check_accurate(c, v, k3, bits):
    t = T(c, 'accurate_tables', HDR % 'accurate_tables', 'the accurate value')
    a = v['acc']
    n = len(a) // 3
    for i in range(n):
        x, s, co = a[3 * i:3 * i + 3]
        X = Fr(x)
        k = Fr(i, 2 ** bits)
        # The points are so close to the nodes that the reduced argument stays in the domain of the polynomials.
        t.ok('%d, x' % i, abs(X - k) <= Fr(1, 2 ** (bits + 4)), x, k)
        xm = mpf(x)
        for name, got, want in (('sin', s, mpmath.sin(xm)), ('cos', co, mpmath.cos(xm))):
            if i == 0:
                t.ok('0, ' + name, got == (0 if name == 'sin' else 1), got, want)
            else:
                # κ₃ extra bits are correct beyond the mantissa.
                t.ok('%d, %s' % (i, name), abs(mpf(got) - want) <= abs(want) * mpf(2) ** -(53 + k3) * 2,
                     float(got).hex(), want)
    t.ok('size', n >= math.floor(math.pi / 4 * 2 ** bits) + 1, n, 'enough entries to reach π/4')
    return t.done()


def check_legendre(c, v):
    t = T(c, 'legendre', 'numerics/legendre_body.hpp', 'the coefficient of the Legendre polynomial')
    for d in range(16):
        got = v['leg%d' % d]
        got = got + [0.0] * (d + 1 - len(got))
        for i, w in enumerate(legendre_poly(d)):
            t.eq('degree=%d, x^%d' % (d, i), got[i], mpf(w.numerator) / w.denominator, 2)
    return t.done()


def check_cho(c):
    t = T(c, 'cohen_hubbard_oesterwinter', 'integrators/cohen_hubbard_oesterwinter_body.hpp',
          'the coefficient of the Cohen-Hubbard-Oesterwinter formula')
    for n, got in sorted(cho_formulas().items()):
        t.ok('order=%d, size' % n, len(got) == n + 1, len(got) - 1, n)
        if len(got) != n + 1:
            continue
        # v(0) = (x(0) - x(-h)) / h + h Σ ηᵢ f(-i h), exact when f is a polynomial of degree n - 1:
        # for x = t^p, p from 2 to n + 1.
        A = [[Fr((-i) ** (p - 2)) * p * (p - 1) for i in range(n)] for p in range(2, n + 2)]
        B = [[Fr((-1) ** p)] for p in range(2, n + 2)]
        eta = [r[0] for r in solve(A, B)]
        for i in range(n):
            t.ok('order=%d, i=%d' % (n, i), Fr(got[i]) == eta[i] * Fr(got[n]), '%s/%s' % (got[i], got[n]), eta[i])
    return t.done()


# ---------------------------------------------------------------------------------------------- polynomials in sources

class Source:
    """The constants and the polynomials at namespace scope of a file, by exact evaluation of their initializers."""

    def __init__(self, path):
        self.path = path
        self.t = cxx.tokens(path)
        if not self.t:
            raise Broken('%s is missing' % path)
        self.raw = {}
        t = self.t
        i = 0
        while i < len(t):
            if t[i] == 'constexpr' and i + 1 < len(t):
                j = i
                while j < len(t) and t[j] not in (';', '{', '('):
                    if t[j] == '=':
                        break
                    if t[j] == '<':
                        k = cxx.angle(t, j)
                        j = k if k else j
                    j += 1
                if j < len(t) and t[j] == '=' and t[j - 1].kind == 'id':
                    k = j
                    while t[k] != ';':
                        if t[k] in cxx.OPEN:
                            k = cxx.match(t, k)
                        k += 1
                    self.raw.setdefault(str(t[j - 1]), t[j + 1:k])
                    i = j
            i += 1
        self.cache = {'π': None}

    def env(self, n):
        n = n.split('::')[-1]
        if n in self.cache:
            return self.cache[n]
        self.cache[n] = None
        if n in self.raw:
            e = expr.try_parse(self.raw[n])
            self.cache[n] = e and self.value(e)
        return self.cache[n]

    def value(self, e):
        return expr.value(e, self.env)

    def polynomials(self):
        """{name: (degree, coefficients, origin, line)}, for the declarations `PolynomialInMonomialBasis<...> name(...)`."""
        t, out = self.t, {}
        for i in range(len(t) - 3):
            if t[i] == 'PolynomialInMonomialBasis' and t[i + 1] == '<':
                k = cxx.angle(t, i + 1)
                if not k:
                    continue
                targs = cxx.split_args(t[i + 2:k])
                j = k + 1
                if t[j] == 'const':
                    j += 1
                if t[j].kind != 'id' or t[j + 1] not in ('(', '{'):
                    continue
                q = cxx.match(t, j + 1)
                if t[q + 1] != ';':
                    continue
                args = expr.items(t[j + 2:q])
                if not args or args[0][0] != 'init' or len(targs) < 3:
                    continue
                deg = expr.try_parse(targs[2])
                co = [self.value(e) for e in args[0][2]]
                org = self.value(args[1]) if len(args) > 1 else None
                out[str(t[j])] = (int(deg[1]) if deg and deg[0] == 'num' else None, co, org, t[j].line)
        return out


def dfact(n):
    return 1 if n <= 0 else n * dfact(n - 2)


def binom_half(j):
    """(2 j - 1)!! / (2 j)!!, the coefficients of (1 - x)^(-1/2)."""
    return Fr(dfact(2 * j - 1), dfact(2 * j))


# K = Σ a_j² m^j, B = Σ b_j a_j m^j, etc., times π/2, with hypergeometric series.  All the elliptic integrals satisfy
# second-order linear differential equations with polynomial coefficients, from which their Taylor coefficients about
# any point follow.

def taylor_KE(m0, n):
    """The Taylor coefficients of K(m) and E(m) about m0, from dE/dm = (E - K)/(2m), dK/dm = (E - (1-m)K)/(2m(1-m))."""
    m0 = mpf(m0)
    K = [mpmath.ellipk(m0)]
    E = [mpmath.ellipe(m0)]
    for k in range(n):
        # 2 m E' = E - K, with m = m0 + x.
        e1 = (E[k] - K[k] - 2 * k * E[k]) / (2 * m0 * (k + 1))
        # 2 m (1 - m) K' = E - (1 - m) K; m (1 - m) = p + q x - x², p = m0 (1 - m0), q = 1 - 2 m0.
        p, q = m0 * (1 - m0), 1 - 2 * m0
        rhs = E[k] - (1 - m0) * K[k] + (K[k - 1] if k else 0)
        lhs = 2 * (q * k * K[k] - ((k - 1) * K[k - 1] if k else 0))
        K.append((rhs - lhs) / (2 * p * (k + 1)))
        E.append(e1)
    return K, E


def taylor_BD(m0, n):
    """B = (E - (1-m) K)/m, D = (K - E)/m."""
    K, E = taylor_KE(m0, n + 1)
    m0 = mpf(m0)
    B, D = [], []
    for k in range(n + 1):
        b = E[k] - (1 - m0) * K[k] + (K[k - 1] if k else 0)
        B.append((b - (B[k - 1] if k else 0)) / m0)
        D.append((K[k] - E[k] - (D[k - 1] if k else 0)) / m0)
    return B, D


def close(a, b, tol):
    if b == 0:
        return a == 0
    return abs(mpf(a.numerator) / a.denominator - b) <= tol * abs(b)


def series_K(n):
    return [binom_half(j) ** 2 for j in range(n + 1)]


def series_E(n):
    return [-binom_half(j) ** 2 / (2 * j - 1) for j in range(n + 1)]


def nome(n):
    """The Maclaurin series of q(m)/m, exactly: by the reversion of m = θ₂⁴(q)/θ₃⁴(q)."""
    M = n + 2

    def mul(a, b):
        r = [Fr(0)] * M
        for i, x in enumerate(a):
            if x:
                for j, y in enumerate(b):
                    if i + j < M:
                        r[i + j] += x * y
        return r

    th2 = [Fr(0)] * M        # θ₂/(2 q^(1/4)) = Σ q^(k(k+1))
    th3 = [Fr(0)] * M
    k = 0
    while k * k < M:
        if k * (k + 1) < M:
            th2[k * (k + 1)] += 1
        th3[k * k] += 1 if k == 0 else 2
        k += 1
    t24 = mul(mul(th2, th2), mul(th2, th2))
    t34 = mul(mul(th3, th3), mul(th3, th3))
    inv = [Fr(0)] * M
    inv[0] = 1 / t34[0]
    for i in range(1, M):
        inv[i] = -sum(t34[j] * inv[i - j] for j in range(1, i + 1)) / t34[0]
    lam = [16 * x for x in mul(t24, inv)]      # m = q * lam(q)
    # Lagrange reversion: q = m / lam(q); [m^k] q = (1/k) [q^(k-1)] lam^(-k).
    il = [Fr(0)] * M
    il[0] = 1 / lam[0]
    for i in range(1, M):
        il[i] = -sum(lam[j] * il[i - j] for j in range(1, i + 1)) / lam[0]
    out, p = [], [Fr(1)] + [Fr(0)] * (M - 1)
    for k in range(1, n + 2):
        p = mul(p, il)
        out.append(p[k - 1] / k)
    return out


def kx_maclaurin(n):
    """KX(m) = K(m)/π, EX... (the functions of [Fuk11a])."""
    return [a / 2 for a in series_K(n)]


def check_elliptic(c):
    path = 'numerics/elliptic_integrals.cpp'
    s = Source(path)
    t = T(c, 'elliptic_integrals', path, 'the coefficient of the series')
    polys = s.polynomials()
    found = set()
    C = binom_half
    for name, (deg, co, org, line) in polys.items():
        if None in co:
            continue
        where = lambda i: '%s, x^%d (line %d)' % (name, i, line)
        want, tol = None, mpf(2) ** -52
        m = re.fullmatch(r'fukushima_elliptic_Js_maclaurin_n_(\d+)_(\d+)', name)
        if m:
            L, k = int(m.group(1)), int(m.group(2))
            want = [C(k) * C(L - k - i) / (2 * L + 3) for i in range(L - k + 1)]
        m = re.fullmatch(r'elliptic_K_taylor_0_(\d+)', name)
        if m:
            m0 = Fr('0.' + m.group(1))
            t.ok(name + ', origin', org == m0, org, m0)
            want = taylor_KE(mpf(m0.numerator) / m0.denominator, deg)[0]
            tol = mpf(10) ** -15 * 5
        m = re.fullmatch(r'fukushima_([BD])_taylor_0_(\d+)', name)
        if m:
            m0 = Fr('0.' + m.group(2))
            want = taylor_BD(mpf(m0.numerator) / m0.denominator, deg)['BD'.index(m.group(1))]
        m = re.fullmatch(r'fukushima_([EK])X_taylor_0_05', name)
        if m:
            K, E = taylor_KE(mpf(1) / 20, deg)
            # KX = K/π, EX = (K - E)/π.
            want = [x / mp.pi for x in K] if m.group(1) == 'K' else [(x - y) / mp.pi for x, y in zip(K, E)]
        if name == 'fukushima_KX_maclaurin':
            want = [x / 2 for x in series_K(deg)]
        elif name == 'fukushima_EX_maclaurin':
            K, E = series_K(deg + 1), series_E(deg + 1)
            want = [(K[i + 1] - E[i + 1]) / 2 for i in range(deg + 1)]
        elif name == 'fukushima_B𐌟X_maclaurin':
            # B*X(m)/m, -B/π.
            K, E = series_K(deg + 1), series_E(deg + 1)
            want = [-(E[i + 1] - K[i + 1] + K[i]) / 2 for i in range(deg + 1)]
        if want is None:
            continue
        found.add(name)
        t.ok(name + ', degree', len(co) == deg + 1 == len(want), len(co), len(want))
        for i, (g, w) in enumerate(zip(co, want)):
            w = mpf(w.numerator) / w.denominator if isinstance(w, Fr) else w
            t.ok(where(i), close(g, w, tol), float(g), w)
    # The nome.
    i = next((i for i, x in enumerate(s.t) if x == 'full_series'), None)
    if i is not None:
        k = i
        while s.t[k] != '{':
            k += 1
        co = [s.value(e) for e in expr.items(s.t[k + 1:cxx.match(s.t, k)])]
        for j, (g, w) in enumerate(zip(co, nome(len(co)))):
            t.ok('EllipticNomeQMaclaurin, m^%d' % j, g == w, g and float(g), w)
    return t.done(), len(found)


def check_elliptic_functions(c):
    path = 'numerics/elliptic_functions.cpp'
    s = Source(path)
    t = T(c, 'elliptic_functions', path, 'the coefficient of the series')
    W = {'fukushima_b₀_maclaurin_m_1': [Fr(1, 2)], 'fukushima_b₀_maclaurin_m_2': [Fr(-1, 24), Fr(-4, 24)],
         'fukushima_b₀_maclaurin_m_3': [Fr(1, 720), Fr(44, 720), Fr(16, 720)]}
    for name, (deg, co, org, line) in s.polynomials().items():
        for i, (g, w) in enumerate(zip(co, W.get(name, []))):
            if g is not None:
                t.ok('%s, m^%d (line %d)' % (name, i, line), g == w, g, w)
    return t.done()


# ------------------------------------------------------------------------------------------------------------ sin, cos

def m128d_constants(s):
    out = {}
    t = s.t
    for i in range(len(t) - 4):
        if t[i] == 'M128D' and t[i + 1] == 'const' and t[i + 2].kind == 'id' and t[i + 3] in ('(', '{'):
            e = expr.try_parse(t[i + 4:cxx.match(t, i + 3)])
            v = e and s.value(e)
            if v is not None:
                out.setdefault(str(t[i + 2]), (v, t[i + 2].line))
    return out


def in_namespace(s, ns):
    """The constexprs within the namespace `ns`."""
    t = s.t
    for i in range(len(t) - 2):
        if t[i] == 'namespace' and t[i + 1] == ns and t[i + 2] == '{':
            k = cxx.match(t, i + 2)
            sub = Source.__new__(Source)
            sub.path, sub.t, sub.raw = s.path, t[i + 2:k], {}
            out = {}
            j = i + 3
            while j < k:
                if t[j] == '=' and t[j - 1].kind == 'id':
                    q = j
                    while t[q] != ';':
                        q += 1
                    e = expr.try_parse(t[j + 1:q])
                    v = e and s.value(e)
                    out.setdefault(str(t[j - 1]), (v, t[j].line))
                    j = q
                j += 1
            return out
    return {}


def is_double(x):
    return x == Fr(float(x))


def trailing_zeros(x):
    n = abs(x.numerator)
    k = (n & -n).bit_length() - 1 if n else 0
    return 53 - (n >> k).bit_length()


def check_sin_cos(c):
    path = 'numerics/sin_cos.cpp'
    s = Source(path)
    t = T(c, 'sin_cos', path, 'the constant')
    m = m128d_constants(s)
    bits = s.env('table_spacing_bits')
    k3 = s.env('κ₃')
    half_pi = mp.pi / 2
    F = lambda x: mpf(x.numerator) / x.denominator
    cutoff = s.env('sin_near_zero_cutoff')

    def poly(a0, a1, f, lo, hi, scale):
        """The greatest error of x + a0 x³ + a1 x⁵, etc."""
        worst = mpf(0)
        for i in range(1, 201):
            x = lo + (hi - lo) * (mpf(1) - mpmath.cos(mp.pi * i / 200)) / 2
            if x == 0:
                continue
            worst = max(worst, abs(f(x, F(a0), F(a1))) / scale(x))
        return worst

    if bits is not None and k3 is not None:
        h = mpf(1) / 2 ** (int(bits) + 1) * (1 + mpf(2) ** -3)
        e = {n: s.env(n) for n in ('e_sin_near_zero', 'e_sin', 'e_cos')}
        cut = F(cutoff) if cutoff is not None else None

        def bound(n):
            # e = 1 + 2^54 ε, up to terms of order ε: the error that the rounding test allows.
            return None if e[n] is None else (F(e[n]) - 1) / mpf(2) ** 54

        fsin = lambda x, a, b: x + a * x ** 3 + b * x ** 5 - mpmath.sin(x)
        fcos = lambda x, a, b: 1 + a * x ** 2 + b * x ** 4 - mpmath.cos(x)
        if cut is not None and all(n in m for n in ('sin_near_zero_0', 'sin_near_zero_1')) and bound('e_sin_near_zero'):
            w = poly(m['sin_near_zero_0'][0], m['sin_near_zero_1'][0], fsin, mpf(0), cut, lambda x: mpmath.sin(x))
            t.ok('sin_near_zero_0, sin_near_zero_1: relative error on the interval where they are used',
                 w <= bound('e_sin_near_zero'), mpmath.nstr(w, 5), mpmath.nstr(bound('e_sin_near_zero'), 5))
        # Away from zero, Sin x = sin xₖ + (cos xₖ h + ...) : with the smallest sine.
        if cut is not None and all(n in m for n in ('sin_0', 'sin_1', 'cos_0', 'cos_1')) and bound('e_sin'):
            ws = poly(m['sin_0'][0], m['sin_1'][0], fsin, mpf(0), h, lambda x: 1)
            wc = poly(m['cos_0'][0], m['cos_1'][0], fcos, mpf(0), h, lambda x: 1)
            xk = mpf(1) / 2 ** int(bits)
            es = max((mpmath.cos(x) * ws + mpmath.sin(x) * wc) / mpmath.sin(x - h) for x in (xk, mpf(1) / 2, mpf(3) / 4))
            ec = max((mpmath.cos(x) * wc + mpmath.sin(x) * ws) / mpmath.cos(x + h) for x in (xk, mpf(1) / 2, mpf(3) / 4))
            t.ok('sin_0, sin_1, cos_0, cos_1: relative error on the sine', es <= bound('e_sin'),
                 mpmath.nstr(es, 5), mpmath.nstr(bound('e_sin'), 5))
            t.ok('sin_0, sin_1, cos_0, cos_1: relative error on the cosine', ec <= bound('e_cos'),
                 mpmath.nstr(ec, 5), mpmath.nstr(bound('e_cos'), 5))
            c.coverage['sin_cos_errors'] = [mpmath.nstr(x, 5) for x in (w, es, ec)]
            c.coverage['sin_cos_bounds'] = [mpmath.nstr(bound(x), 5) for x in e]
    cw, bdl = in_namespace(s, 'cody_waite'), in_namespace(s, 'boldo_daumas_li')

    def split(ns, table, names, exactness):
        got = [table.get(n, (None,))[0] for n in names]
        if None in got:
            return
        rest = half_pi
        for n, g in zip(names, got):
            last = n == names[-1]
            t.ok('%s::%s is a double' % (ns, n), is_double(g), g, 'a double')
            if n in exactness and exactness[n] is not None:
                t.ok('%s::%s, trailing zeroes' % (ns, n), trailing_zeros(g) >= exactness[n],
                     trailing_zeros(g), 'at least %s' % exactness[n])
            rest = rest - F(g)
            if last:
                t.ok('%s, the sum of %s' % (ns, ', '.join(names)), abs(rest) <= abs(F(g)) * mpf(2) ** -50,
                     mpmath.nstr(half_pi - rest, 50), half_pi)
    z = lambda n: int(cw[n][0]) if n in cw and cw[n][0] is not None else None
    split('cody_waite', cw, ['C₁', 'δC₁'], {'C₁': z('κ₁')})
    split('cody_waite', cw, ['C₂', 'Cʹ₂', 'δC₂'], {'C₂': z('κ₂'), 'Cʹ₂': z('κ₂')})
    split('boldo_daumas_li', bdl, ['C₁', 'C₂', 'C₃'], {})
    if 'R' in bdl and bdl['R'][0] is not None:
        t.eq('boldo_daumas_li::R', F(bdl['R'][0]), 2 / mp.pi)
    # The threshold of the double reduction: n fits on κ bits.
    return t.done(), bits, k3


def check_angle_reduction(c):
    path = 'numerics/angle_reduction_body.hpp'
    t = T(c, 'angle_reduction', path, 'the constant')
    toks = cxx.tokens(path)
    got = {}
    for i in range(len(toks) - 3):
        if toks[i] == '.' and toks[i + 1] in ('value', 'error') and toks[i + 2] in ('=',) and toks[i + 3].kind == 'num':
            got.setdefault(str(toks[i + 1]), expr.number(toks[i + 3]))
    if len(got) == 2:
        F = lambda x: mpf(x.numerator) / x.denominator
        t.eq('π_over_2.value', F(got['value']), mp.pi / 2, mpf(1) / 2)
        t.eq('π_over_2.error', F(got['error']), mp.pi / 2 - F(got['value']), mpf(1) / 2)
    return t.done()


# --------------------------------------------------------------------------------------------------------- apodization

WINDOWS = {
    'Dirichlet': (1, [Fr(1)]),
    'Sine': (Fr(1, 2), [Fr(0), Fr(1)]),
    'Hann': (1, [Fr(1, 2), Fr(1, 2)]),
    'Hamming': (1, [Fr(25, 46), Fr(21, 46)]),
    'Blackman': (1, [Fr('0.42'), Fr('0.5'), Fr('0.08')]),
    'ExactBlackman': (1, [Fr(7938, 18608), Fr(9240, 18608), Fr(1430, 18608)]),
    'Nuttall': (1, [Fr('0.355768'), Fr('0.487396'), Fr('0.144232'), Fr('0.012604')]),
    'BlackmanNuttall': (1, [Fr('0.3635819'), Fr('0.4891775'), Fr('0.1365995'), Fr('0.0106411')]),
    'BlackmanHarris': (1, [Fr('0.35875'), Fr('0.48829'), Fr('0.14128'), Fr('0.01168')]),
    'ISO18431_2': (1, [x / Fr('4.63867187') for x in (Fr(1), Fr('1.93261719'), Fr('1.28613281'), Fr('0.38769531'),
                                                      Fr('0.03222656'))]),
}


def check_apodization(c):
    path = 'numerics/apodization.cpp'
    t = T(c, 'apodization', path, 'the coefficient of the window')
    for f in cxx.unit(path).functions:
        if f.name not in WINDOWS or f.body is None:
            continue
        consts, ret, omega = {}, None, None
        for kind, toks, g in flow.walk(flow.statements(f.body)):
            if kind != 'stmt':
                continue
            if toks[0] == 'return':
                ret = expr.try_parse(toks[1:])
            elif '=' in toks and toks[0] != 'using':
                i = toks.index('=')
                e = expr.try_parse(toks[i + 1:])
                if e:
                    consts[str(toks[i - 1])] = e

        def lin(e):
            """An angular frequency as a multiple of 2π/(t_max - t_min)."""
            if e[0] == 'id':
                if e[1] == 'π':
                    return (Fr(1, 2), 0)
                if e[1] == 'Radian':
                    return (Fr(1), 0)
                return lin(consts[e[1]]) if e[1] in consts else None
            if e[0] == 'num':
                return (e[1], 0)
            if e[0] == 'bin' and e[1] == '-' and e[2] == ('id', 't_max', None) and e[3] == ('id', 't_min', None):
                return (Fr(1), 1)
            if e[0] == 'bin' and e[1] in '*/':
                a, b = lin(e[2]), lin(e[3])
                if a and b:
                    return (a[0] * b[0], a[1] + b[1]) if e[1] == '*' else (a[0] / b[0], a[1] - b[1])
            return None

        env = lambda n: expr.value(consts[n], lambda m: None) if n in consts else None

        def poly(e):
            """The constant polynomial, with its origin at the middle of the interval."""
            if e[0] not in ('call', 'init') or not e[2]:
                return None
            args = e[2]
            if args[0][0] == 'init' and len(args[0][2]) == 1:
                v = expr.value(args[0][2][0], env)
                o = args[1] if len(args) > 1 else None
                while o and o[0] == 'id' and o[1] in consts:
                    o = consts[o[1]]
                ok = bool(o) and o[0] == 'call' and o[1][1].split('::')[-1] == 'Barycentre' and \
                    {x[1] for x in walk_ids(o)} >= {'t_min', 't_max'}
                return v, ok
            return None

        unit, want = WINDOWS[f.name]
        if not ret or ret[0] not in ('call', 'init') or len(ret[2]) < 2:
            continue
        p0 = poly(ret[2][0])
        terms = {}
        good = p0 is not None and p0[0] is not None
        if ret[2][1][0] != 'init':
            good = False
        else:
            for it in ret[2][1][2]:
                if it[0] != 'init' or len(it[2]) != 2:
                    good = False
                    break
                w = lin(it[2][0])
                sc = {d[1]: poly(d[2]) for d in it[2][1][2] if d[0] == 'des'} if it[2][1][0] == 'init' else {}
                if not w or w[1] != -1 or sc.get('sin') is None or sc.get('cos') is None:
                    good = False
                    break
                terms[w[0] / unit] = sc
        if not good:
            continue
        t.ok(f.name + ', constant', abs(p0[0] - want[0]) <= Fr(1, 2 ** 54), float(p0[0]), float(want[0]))
        t.ok(f.name + ', number of terms', set(terms) == set(map(Fr, range(1, len(want)))), sorted(terms), len(want) - 1)
        for k, sc in terms.items():
            if k.denominator == 1 and 0 < k < len(want):
                t.ok('%s, cosine %s' % (f.name, k), abs(sc['cos'][0] - want[int(k)]) <= Fr(1, 2 ** 54),
                     float(sc['cos'][0]), float(want[int(k)]))
                t.ok('%s, sine %s' % (f.name, k), sc['sin'][0] == 0, float(sc['sin'][0]), 0)
                t.ok('%s, origin of the term %s' % (f.name, k), sc['cos'][1] and sc['sin'][1], 'another origin',
                     'the middle of the interval')
    return t.done()


def walk_ids(e):
    if isinstance(e, tuple):
        if e and e[0] == 'id':
            yield e
        for x in e:
            yield from walk_ids(x)
    elif isinstance(e, list):
        for x in e:
            yield from walk_ids(x)


# ------------------------------------------------------------------------------------- piecewise use of the polynomials

def fatal_default(b):
    return b is None


def check_pieces(c):
    """On each piece of its domain, EllipticK and FukushimaEllipticBD evaluate the expansion about a point of that
    piece, at the argument that this expansion expects; the piece is within the interval where it is accurate."""
    path = 'numerics/elliptic_integrals.cpp'
    s = Source(path)
    polys = s.polynomials()
    t = T(c, 'elliptic_pieces', path, 'the use of the expansion')
    n = 0
    for f in cxx.unit(path).functions:
        if f.name not in ('EllipticK', 'FukushimaEllipticBD') or f.body is None or len(f.params) not in (1, 3):
            continue
        mc = str(f.params[0][0])
        n += pieces(c, t, f, mc, polys)
    t.done()
    return n


def pieces(c, t, f, mc, polys):
    count = [0]

    def lin(e, env):
        """(a, b): a + b mc."""
        if e[0] == 'num':
            return (e[1], Fr(0))
        if e[0] == 'id':
            return env.get(e[1])
        if e[0] == 'un' and e[1] == '-':
            a = lin(e[2], env)
            return a and (-a[0], -a[1])
        if e[0] == 'bin' and e[1] in '+-':
            a, b = lin(e[2], env), lin(e[3], env)
            if a and b:
                sg = 1 if e[1] == '+' else -1
                return (a[0] + sg * b[0], a[1] + sg * b[1])
        if e[0] == 'bin' and e[1] in '*/':
            a, b = lin(e[2], env), lin(e[3], env)
            if a and b:
                if e[1] == '*' and (a[1] == 0 or b[1] == 0):
                    return (a[0] * b[0], a[0] * b[1] + a[1] * b[0])
                if e[1] == '/' and b[1] == 0 and b[0]:
                    return (a[0] / b[0], a[1] / b[0])
        return None

    def cond(e, env, lo, hi):
        """The interval of mc on which the condition holds, and on which it does not."""
        if e[0] == 'bin' and e[1] in ('<', '<=', '>', '>='):
            a, b = lin(e[2], env), lin(e[3], env)
            if a and b:
                k0, k1 = a[0] - b[0], a[1] - b[1]
                if k1 != 0:
                    x = -k0 / k1
                    less = (e[1][0] == '<') == (k1 > 0)
                    return ((lo, min(hi, x)), (max(lo, x), hi)) if less else ((max(lo, x), hi), (lo, min(hi, x)))
        return None

    def calls(e):
        if isinstance(e, tuple):
            if e and e[0] == 'call' and e[1][0] == 'id' and e[1][1] in polys and len(e[2]) == 1:
                yield e
            for x in e:
                yield from calls(x)
        elif isinstance(e, list):
            for x in e:
                yield from calls(x)

    def use(e, env, lo, hi, line):
        for x in calls(e):
            name = x[1][1]
            m = re.search(r'_taylor_0_(\d+)$', name)
            if not m:
                continue
            deg, co, org, _ = polys[name]
            m0 = Fr('0.' + m.group(1))
            a = lin(x[2][0], env)
            if a is None:
                continue
            count[0] += 1
            # The displacement from the point of expansion, as a function of mc.
            d = (a[0] - (org or 0), a[1])
            # KX, EX and K′ are functions of the complementary parameter.
            comp = d[1] > 0
            want = (-m0, Fr(1)) if comp else (1 - m0, Fr(-1))
            t.ok('%s in %s' % (name, f.name), d == want,
                 '%s %+g mc' % (float(d[0]), float(d[1])), '%s %+g mc' % (float(want[0]), float(want[1])))
            if lo is None:
                continue
            # The expansion is accurate on the interval of half-width 0.05 (0.025 or, at the end of the range, 0.075 for
            # those about 0.825 and 0.875) for which its degree was chosen: the first omitted terms are negligible.
            r = max(abs(d[0] + d[1] * lo), abs(d[0] + d[1] * hi))
            g = [abs(float(z)) for z in co if z is not None]
            if len(g) > 2 and g[-2]:
                q = g[-1] / g[-2]
                tail = g[-1] * float(r) ** deg * (q * float(r)) / max(1e-3, 1 - q * float(r))
                t.ok('%s, width of the interval in %s' % (name, f.name),
                     q * r < 1 and tail <= 1e-14 * g[0], 'mc in [%g, %g]' % (lo, hi),
                     'an interval on which the terms beyond the degree %d are negligible' % deg)

    def go(ss, env, lo, hi):
        """Returns the interval on which the statements fall through."""
        for st in ss:
            if st[0] == 'block':
                r = go(st[1], env, lo, hi)
                if r is None:
                    return None
                lo, hi = r
            elif st[0] == 'stmt':
                toks = st[1]
                if toks[0] == 'return':
                    e = expr.try_parse(toks[1:])
                    if e:
                        use(e, env, lo, hi, toks[0].line)
                    return None
                if toks[0] in ('DCHECK_LE', 'DCHECK_GE', 'CHECK_LE'):
                    continue
                if '=' in toks:
                    i = toks.index('=')
                    e = expr.try_parse(toks[i + 1:])
                    if e:
                        env[str(toks[i - 1])] = lin(e, env)
                        use(e, env, lo, hi, toks[0].line)
            elif st[0] == 'if':
                e = expr.try_parse(st[1])
                r = e and lo is not None and cond(e, env, lo, hi)
                eq = e and e[0] == 'bin' and e[1] == '=='
                if r:
                    (tl, th), (el, eh) = r
                elif eq:
                    (tl, th), (el, eh) = (lo, hi), (lo, hi)
                else:
                    (tl, th), (el, eh) = (None, None), ((lo, hi) if e and 'epsilon' in st[1] else (None, None))
                    if e and 'epsilon' in st[1]:
                        el, eh = lo, hi
                a = go(st[2], dict(env), tl, th)
                b = go(st[3], dict(env), el, eh) if st[3] else (el, eh)
                if a is None and b is None:
                    return None
                if a is None:
                    lo, hi = b
                elif b is None:
                    lo, hi = a
                elif None in a or None in b:
                    lo = hi = None
                else:
                    lo, hi = min(a[0], b[0]), max(a[1], b[1])
        return lo, hi

    go(flow.statements(f.body), {mc: (Fr(0), Fr(1))}, Fr(0), Fr(1))
    return count[0]


# ------------------------------------------------------------------- the series of the elliptic integrals, symbolically

class Series:
    """Evaluates a function on polynomials in its arguments; the paths are split on the comparisons with literals."""

    def __init__(self, polys, makers, statics):
        self.polys, self.makers, self.statics = polys, makers, statics
        self.returns = []       # (bounds, value)
        self.outs = {}

    def ev(self, e, env):
        k = e[0]
        if k == 'num':
            return Poly.const(e[1])
        if k == 'id':
            if e[1] == 'Radian':
                return Poly.const(1)
            return env.get(e[1])
        if k == 'un':
            a = self.ev(e[2], env)
            return a if a is None or e[1] == '+' else -a if e[1] == '-' and isinstance(a, Poly) else None
        if k == 'bin':
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            if not isinstance(a, Poly) or not isinstance(b, Poly):
                return None
            if e[1] == '+':
                return a + b
            if e[1] == '-':
                return a - b
            if e[1] == '*':
                return a * b
            if e[1] == '/' and b.is_const() and b:
                return a * Poly.const(1 / b.value())
            return None
        if k == 'call' and e[1][0] in ('id',):
            name = e[1][1]
            last = name.split('::')[-1]
            args = [self.ev(a, env) for a in e[2]]
            p = env.get(name)
            if isinstance(p, list) and len(args) == 1 and args[0] is not None:
                return self.horner(p, args[0])
            if name in self.polys and len(args) == 1 and args[0] is not None:
                deg, co, org, _ = self.polys[name]
                if None in co or org:
                    return None
                return self.horner([Poly.const(x) for x in co], args[0])
            if name in self.statics and len(args) == 1 and args[0] is not None:
                return self.horner([Poly.const(x) for x in self.statics[name]], args[0])
            if last in self.makers and None not in args:
                return self.makers[last](args)
        return None

    @staticmethod
    def horner(co, x):
        r = Poly()
        for c in reversed(co):
            if c is None:
                return None
            r = r * x + c
        return r

    def run(self, ss, env, bounds):
        """True if the statements return."""
        for st in ss:
            if st[0] == 'block':
                if self.run(st[1], env, bounds):
                    return True
            elif st[0] == 'if':
                e = expr.try_parse(st[1])
                b = None
                if e and e[0] == 'bin' and e[1] in ('<', '<=') and e[2][0] == 'id' and e[3][0] == 'num':
                    b = (e[2][1], e[3][1])
                # The negation is not needed: what follows is taken up to the next bound.
                self.run(st[2], dict(env), bounds + ([b] if b else [('?', ' '.join(st[1]))]))
                if st[3]:
                    self.run(st[3], dict(env), bounds)
                    return True
            elif st[0] == 'stmt':
                t = st[1]
                if t[0] == 'return':
                    e = expr.try_parse(t[1:])
                    self.returns.append((bounds, e and self.ev(e, env), t[0].line))
                    return True
                if '=' in t:
                    i = t.index('=')
                    e = expr.try_parse(t[i + 1:])
                    v = e and self.ev(e, env)
                    env[str(t[i - 1])] = v
                    if i == 1:
                        self.outs[str(t[0])] = v
                elif len(t) > 3 and t[-1] == ')' and 'PolynomialInMonomialBasis' in t:
                    k = cxx.match_back(t, len(t) - 1)
                    a = expr.items(t[k + 1:-1])
                    if a and a[0][0] == 'init' and len(a) == 1:
                        env[str(t[k - 1])] = [self.ev(x, env) for x in a[0][2]]
        return False


def static_series(s):
    """{name::polynomial: coefficients} for the generated series, from the compiler."""
    ex, al = {}, {}
    t = s.t
    for i in range(len(t) - 6):
        if t[i] == 'using' and t[i + 2] == '=' and re.fullmatch(r'Fukushima\w+Maclaurin\d+', t[i + 1]):
            if t[i + 4] == '<' and t[i + 5].isdigit():
                al[str(t[i + 1])] = int(t[i + 5])
    g = 'principia::numerics::_elliptic_integrals::internal::'
    for k, (name, n) in enumerate(al.items()):
        ex['s%d' % k] = ('auto', 'verif::spread<%d>(%s%s::Generator<std::make_index_sequence<%d>>::series, '
                                 'std::make_integer_sequence<int, %d>())' % (n + 1, g, name, n + 1, n + 1))
    if not ex:
        return {}
    v = astlib.constants(['array', 'utility', s.path], ex, extra=('-fno-access-control',), prelude='''
namespace verif {
template<int n, typename S, int... k> constexpr auto spread(S const& s, std::integer_sequence<int, k...>) {
  return std::array<double, n>{get<k>(s)...}; } }
''')
    return {name + '::polynomial': [Fr(x) for x in v['s%d' % k]] for k, name in enumerate(al)}


def makers(path):
    """The functions that build the series of Bs and Ds from that of Fs, as polynomial transformers."""
    out = {}
    for f in cxx.unit(path).functions:
        if f.name not in ('ComputeBsCoefficient', 'ComputeBsCoefficients', 'ComputeDsCoefficients') or f.body is None:
            continue
        rets = []

        def collect(ss, guard=None):
            for st in ss:
                if st[0] == 'block':
                    collect(st[1], guard)
                elif st[0] == 'if':
                    e = expr.try_parse(st[1])
                    zero = e and e[0] == 'bin' and e[1] == '==' and e[3][0] == 'num' and e[3][1] == 0
                    collect(st[2], '0' if zero else '?')
                    collect(st[3] or [], '+' if zero else '?')
                elif st[0] == 'stmt' and st[1][0] == 'return':
                    rets.append((guard, expr.try_parse(st[1][1:])))

        collect(flow.statements(f.body))
        out[f.name] = rets

    def sub(e, j, args):
        k = e[0]
        if k == 'num':
            return Poly.const(e[1])
        if k == 'id':
            return Poly.const(j) if e[1] in ('j', 'k') else None
        if k == 'cast':
            return sub(e[2], j, args)
        if k == 'pack':
            return sub(e[1], j, args)
        if k == 'call' and e[1][0] == 'id' and e[1][1] == 'get' and e[1][2]:
            i = expr.try_parse(e[1][2][0])
            i = i and sub(i, j, args)
            return args[int(i.value())] if i is not None and i.is_const() and 0 <= i.value() < len(args) else None
        if k == 'bin':
            a, b = sub(e[2], j, args), sub(e[3], j, args)
            if a is None or b is None:
                return None
            if e[1] in '+-*':
                return a + b if e[1] == '+' else a - b if e[1] == '-' else a * b
            if e[1] == '/' and b.is_const() and b:
                return a * Poly.const(1 / b.value())
        return None

    def bs(args):
        r = out.get('ComputeBsCoefficient')
        if not r:
            return None
        co = []
        for j in range(len(args)):
            e = next((e for g, e in r if g is None or g == ('0' if j == 0 else '+')), None)
            co.append(e and sub(e, j, args))
        return co

    def ds(args):
        r = out.get('ComputeDsCoefficients')
        if not r or not r[0][1] or r[0][1][0] != 'init' or len(r[0][1][2]) != 1:
            return None
        return [sub(r[0][1][2][0], j, args) for j in range(len(args))]

    return {'MakeBsPolynomial': bs, 'MakeDsPolynomial': ds}


def near(p, q, tol=Fr(1, 2 ** 51)):
    for k in set(p.t) | set(q.t):
        a, b = p.t.get(k, Fr(0)), q.t.get(k, Fr(0))
        if abs(a - b) > tol * max(abs(a), abs(b)):
            return False
    return True


def check_series(c):
    path = 'numerics/elliptic_integrals.cpp'
    s = Source(path)
    t = T(c, 'elliptic_series', path, 'the series')
    polys, statics, mk = s.polynomials(), static_series(s), makers(path)
    C = binom_half
    n_, m_, y_ = Poly.var('n'), Poly.var('m'), Poly.var('y')

    def power(v, k):
        return Poly({((v, k),): Fr(1)}) if k else Poly.const(1)

    def J(L):
        r = Poly()
        for k in range(L + 1):
            for i in range(L - k + 1):
                r = r + power('m', k) * power('n', i) * Poly.const(C(k) * C(L - k - i) / (2 * L + 3))
        return r

    def F(l):
        r = Poly()
        for k in range(l + 1):
            r = r + power('m', k) * Poly.const(C(k) * C(l - k))
        return r

    for name, co in statics.items():
        mm = re.fullmatch(r'FukushimaEllipticFsMaclaurin(\d+)::polynomial', name)
        if mm:
            l = int(mm.group(1))
            want = [C(k) * C(l - k) / (2 * l + 1) for k in range(l + 1)]
        elif name.startswith('FukushimaTMaclaurin'):
            l = int(re.search(r'(\d+)::', name).group(1))
            want = [Fr(1, 2 * k + 1) for k in range(l + 1)]
        else:
            continue
        t.ok(name + ', degree', len(co) == l + 1, len(co) - 1, l)
        for i, (g, w) in enumerate(zip(co, want)):
            t.ok('%s, x^%d' % (name, i), abs(g - w) <= w / 2 ** 52, float(g), w)

    for f in cxx.unit(path).functions:
        if f.body is None:
            continue
        if f.name == 'FukushimaEllipticJsMaclaurinSeries' and len(f.params) == 3:
            v = Series(polys, mk, statics)
            env = dict(zip([str(p[0]) for p in f.params], (y_, n_, m_)))
            v.run(flow.statements(f.body), env, [])
            for bounds, p, line in v.returns:
                if not isinstance(p, Poly):
                    continue
                d = p.degree('y')
                for l in range(1, d + 1):
                    t.ok('Js, term y^%d of the series of degree %d' % (l, d), near(p.coeff('y', l), J(l - 1)),
                         p.coeff('y', l), 'that of the integral')
                t.ok('Js, constant term (degree %d)' % d, not p.coeff('y', 0), p.coeff('y', 0), 0)
                b = bounds[-1][1] if bounds and not isinstance(bounds[-1][1], str) else Fr('0.01622')
                tail = J(d).subs({'m': Poly.const(1), 'n': Poly.const(1)}).value() * b ** d * 3
                t.ok('Js, degree %d for y <= %g' % (d, float(b)), tail <= Fr(1, 2 ** 50), float(tail),
                     'less than the last places of the result')
        elif f.name == 'FukushimaEllipticBsDsMaclaurinSeries' and len(f.params) == 4:
            v = Series(polys, mk, statics)
            ps = [str(p[0]) for p in f.params]
            v.run(flow.statements(f.body), {ps[0]: y_, ps[1]: m_}, [])
            for out, kind in ((ps[2], 'B'), (ps[3], 'D')):
                p = v.outs.get(out)
                if not isinstance(p, Poly):
                    continue
                for l in range(p.degree('y') + 1):
                    # The integrands are those of F times 1 - s² and s².
                    w = F(l) * Poly.const(Fr(1, 2 * l + 3)) if kind == 'D' else \
                        (F(l) - (F(l - 1) if l else Poly())) * Poly.const(Fr(1, 2 * l + 1))
                    if kind == 'B' and l == 0:
                        w = Poly.const(1)
                    t.ok('%ss, term y^%d' % (kind, l), near(p.coeff('y', l), w, Fr(1, 2 ** 44)), p.coeff('y', l),
                         'that of the integral')
        elif f.name == 'FukushimaT' and len(f.params) == 2:
            v = Series(polys, mk, statics)
            ps = [str(p[0]) for p in f.params]
            v.run(flow.statements(f.body), {ps[0]: Poly.var('t'), ps[1]: Poly.var('h')}, [])
            for bounds, p, line in v.returns:
                if not isinstance(p, Poly) or not bounds or bounds[-1][0] not in ('abs_z',):
                    continue
                d = p.degree('h')
                ok = all(near(p.coeff('h', k), power('t', 2 * k + 1) * Poly.const(Fr((-1) ** k, 2 * k + 1)))
                         for k in range(d + 1))
                t.ok('T, degree %d' % d, ok, p, 'that of the inverse tangent')
                tail = bounds[-1][1] ** (d + 1) / (2 * d + 3)
                t.ok('T, degree %d for |z| < %g' % (d, float(bounds[-1][1])), tail <= Fr(1, 2 ** 51), float(tail),
                     'less than the last places of the result')
    n = t.done()
    c.coverage['obligations on the series'] = n
    return n


def check(c):
    headers = [HDR % n for n in ('accurate_tables', 'finite_difference_coefficients', 'gauss_legendre_weights',
                                 'legendre_roots', 'legendre_normalization_factor', 'newhall_matrices', 'payne_hanek',
                                 'max_abs_normalized_associated_legendre_function')]
    v = astlib.constants(headers + ['numerics/legendre.hpp'], exprs(),
                         prelude=PRELUDE, extra=('-fno-access-control',))
    n = check_gauss(c, v) + check_normalization(c, v) + check_max(c, v) + check_finite_differences(c, v)
    n += check_newhall(c, v) + check_payne_hanek(c, v) + check_legendre(c, v) + check_cho(c)
    m, bits, k3 = check_sin_cos(c)
    n += m + check_accurate(c, v, int(k3 or 18), int(bits or 9))
    e, found = check_elliptic(c)
    n += e + check_elliptic_functions(c) + check_angle_reduction(c) + check_apodization(c)
    c.coverage['pieces'] = check_pieces(c)
    n += check_series(c)
    c.coverage['series of the elliptic integrals'] = found
    c.require('entries of tables compared', n, 8000)


if __name__ == '__main__':
    vlib.main(check, 'C10', 'other', RULE)
