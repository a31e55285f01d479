#!/usr/bin/env python3
"""C15: polynomials and the approximations built on them are those of their definitions."""
import os, sys
from fractions import Fraction as Fr
from math import comb
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'), os.path.dirname(os.path.abspath(__file__))]
import vlib
from algebra import Obligation as O, flat, run
from C12 import VARIANTS

RULE = ('Each operation on polynomials, compiled to LLVM IR and abstracted to rational functions of the coefficients, the origins '
        'and the argument, equals its definition as a rational function.')

PRELUDE = '''
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "numerics/polynomial.hpp"
#include "numerics/polynomial_evaluators.hpp"
#include "numerics/polynomial_in_monomial_basis.hpp"
#include "quantities/named_quantities.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
using namespace principia::base::_tags;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_space;
using namespace principia::numerics::_polynomial;
using namespace principia::numerics::_polynomial_evaluators;
using namespace principia::numerics::_polynomial_in_monomial_basis;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using W = Frame<struct WT, Inertial>;
template<typename Q> static Q get_(double const* in, Q*) { return in[0] * Unit<Q>; }
template<typename Q, int r> static Multivector<Q, W, r> get_(double const* in, Multivector<Q, W, r>*) { return Multivector<Q, W, r>({in[0] * Unit<Q>, in[1] * Unit<Q>, in[2] * Unit<Q>}); }
static Position<W> get_(double const* in, Position<W>*) { return W::origin + get_(in, (Displacement<W>*)nullptr); }
static Instant get_(double const* in, Instant*) { return Instant() + in[0] * Second; }
template<typename Q> static int w(double* out, Q const& q) { *out = q / Unit<Q>; return 1; }
template<typename Q, int r> static int w(double* out, Multivector<Q, W, r> const& q) { w(out, q.coordinates().x); w(out + 1, q.coordinates().y); w(out + 2, q.coordinates().z); return 3; }
static int w(double* out, Position<W> const& q) { return w(out, q - W::origin); }
static int w(double* out, Instant const& q) { return w(out, q - Instant()); }
template<typename V, typename A, int d, template<typename, typename, int> typename E = DefaultEvaluator>
using P = PolynomialInMonomialBasis<V, A, d, E>;
// The origin, and the coefficients.
template<typename Poly> static Poly poly(double const* in) {
  typename Poly::Coefficients c(uninitialized);
  constexpr int n = std::tuple_size_v<typename Poly::Coefficients>;
  double const* p = in + 1;
  auto one = [&](auto& x) { using T = std::remove_reference_t<decltype(x)>; x = get_(p, (T*)nullptr); double b[3]; p += SIZE(x); };
  [&]<std::size_t... k>(std::index_sequence<k...>) { (one(get<k>(c)), ...); }(std::make_index_sequence<n>());
  return Poly(c, get_(in, (typename Poly::Argument*)nullptr));
}
template<typename Poly> static void wp(double* out, Poly const& p) {
  constexpr int n = std::tuple_size_v<typename Poly::Coefficients>;
  out += w(out, p.origin());
  [&]<std::size_t... k>(std::index_sequence<k...>) { ((out += w(out, get<k>(p.coefficients()))), ...); }(std::make_index_sequence<n>());
}
'''.replace('double b[3]; p += SIZE(x);', 'p += std::is_convertible_v<T, Position<W>> || requires { x.coordinates(); } ? 3 : 1;')


class P:
    """A polynomial with values of the given dimension."""
    def __init__(self, x, o, c):
        self.x, self.o, self.c = x, x(o), [[x(v) for v in k] for k in c]

    @staticmethod
    def of(x, i, d, n=1):
        return P(x, i[0], [i[1 + n * k:1 + n * k + n] for k in range(d + 1)])

    def at(self, t):
        x = self.x
        h = x(t) - self.o
        r = [x(0)] * len(self.c[0])
        for c in reversed(self.c):
            r = [h * a + b for a, b in zip(r, c)]
        return r

    def diff(self, order=1):
        x = self.x
        c = self.c
        for _ in range(order):
            c = [[x(k) * v for v in c[k]] for k in range(1, len(c))]
        return P(x, self.o, c or [[x(0)] * len(self.c[0])])

    def prim(self):
        x = self.x
        return P(x, self.o, [[x(0)] * len(self.c[0])] + [[v / x(k + 1) for v in c] for k, c in enumerate(self.c)])

    def moved(self, o):
        x = self.x
        h = x(o) - self.o
        n = len(self.c)
        return P(x, o, [[x.sum([x(comb(j, k)) * x.pow(h, j - k) * self.c[j][m] for j in range(k, n)]) for m in range(len(self.c[0]))] for k in range(n)])

    def flat(self):
        return [self.o] + flat(self.c)

    def zip(self, q, f):
        x = self.x
        n = max(len(self.c), len(q.c))
        z = [x(0)] * len(self.c[0])
        return P(x, self.o, [[f(a, b) for a, b in zip((self.c + [z] * n)[k], (q.c + [z] * n)[k])] for k in range(n)])

    def times(self, q, product=None):
        x = self.x
        product = product or (lambda a, b: [u * v for u in a for v in b])
        r = [None] * (len(self.c) + len(q.c) - 1)
        for i, a in enumerate(self.c):
            for j, b in enumerate(q.c):
                p = product(a, b)
                r[i + j] = p if r[i + j] is None else x.add(r[i + j], p)
        return P(x, self.o, r)


def polynomials():
    obs = []
    wh = 'numerics/polynomial_in_monomial_basis_body.hpp'

    def ob(name, n, body, spec, where=wh, **kw):
        obs.append(O(name, body, n, spec, where=where, **kw))
    ev = 'numerics/polynomial_evaluators_body.hpp'
    dims = {'Length': 1, 'Displacement<W>': 3, 'Position<W>': 3, 'double': 1}
    for v, e, ds in (('Length', 'Horner', range(0, 18)), ('Length', 'Estrin', range(0, 18)), ('Length', 'HornerWithoutFMA', (0, 1, 2, 3, 4, 7)),
                     ('Length', 'EstrinWithoutFMA', range(0, 18)), ('Displacement<W>', 'Estrin', (3, 5, 8)), ('Position<W>', 'Estrin', (1, 2, 3, 5, 8, 13)), ('Position<W>', 'Horner', (0, 1, 2, 3))):
        for d in ds:
            n = dims[v]
            k = 1 + n * (d + 1)
            t = 'auto const p = poly<P<%s, Instant, %d, %s>>(in); auto const t = get_(in + %d, (Instant*)nullptr);' % (v, d, e, k)
            ob('evaluate %s %s %d' % (v, e, d), k + 1,
               t + 'double* o = out; o += w(o, p(t)); o += w(o, p.EvaluateDerivative(t)); std::remove_cvref_t<decltype(p(t))> a = p(t); std::remove_cvref_t<decltype(p.EvaluateDerivative(t))> b{}; '
               'p.EvaluateWithDerivative(t, a, b); o += w(o, a); o += w(o, b);',
               lambda x, i, d=d, n=n, k=k: (lambda p: [p.at(i[k]), p.diff().at(i[k])] * 2)(P.of(x, i, d, n)), where=ev)
        ob('virtual %s %s' % (v, e), 2 + n * 4,
           'auto const q = poly<P<%s, Instant, 3, %s>>(in); Polynomial<%s, Instant> const& p = q; auto const t = get_(in + %d, (Instant*)nullptr);' % (v, e, v, 1 + n * 4) +
           'double* o = out; o += w(o, p(t)); o += w(o, p.EvaluateDerivative(t)); auto a = p(t); auto b = p.EvaluateDerivative(t); b = b - b; p.EvaluateWithDerivative(t, a, b); w(o, a); w(o + %d, b); o[%d] = p.degree();' % (n, 2 * n),
           lambda x, i, n=n: (lambda p: [p.at(i[1 + n * 4]), p.diff().at(i[1 + n * 4]), p.at(i[1 + n * 4]), p.diff().at(i[1 + n * 4]), [x(3)]])(P.of(x, i, 3, n)))
    # Changes of origin, derivatives, primitives.
    for v, d in (('Length', 0), ('Length', 1), ('Length', 4), ('Displacement<W>', 3), ('Position<W>', 3), ('Position<W>', 5), ('Length', 9)):
        n = dims[v]
        k = 1 + n * (d + 1)
        t = 'auto const p = poly<P<%s, Instant, %d, Estrin>>(in); auto const t = get_(in + %d, (Instant*)nullptr);' % (v, d, k)
        if v != 'Position<W>':
          ob('at origin %s %d' % (v, d), k + 1, t + 'wp(out, p.AtOrigin(t));', lambda x, i, d=d, n=n, k=k: P.of(x, i, d, n).moved(i[k]).flat())
        for order in range(0, min(d, 3) + 1):
            if order == 0 and v == 'Position<W>':
                continue
            ob('derivative %d of %s %d' % (order, v, d), k, t.split('auto const t')[0] + 'wp(out, p.Derivative<%d>());' % order,
               lambda x, i, d=d, n=n, order=order: P.of(x, i, d, n).diff(order).flat())
        if v != 'Position<W>':
            ob('primitive of %s %d' % (v, d), k, t.split('auto const t')[0] + 'wp(out, p.Primitive());', lambda x, i, d=d, n=n: P.of(x, i, d, n).prim().flat())
            ob('integrate %s %d' % (v, d), k + 2, t + 'w(out, p.Integrate(t, get_(in + %d, (Instant*)nullptr)));' % (k + 1),
               lambda x, i, d=d, n=n, k=k: (lambda q: x.sub(q.at(i[k + 1]), q.at(i[k])))(P.of(x, i, d, n).prim()))
    # The algebra.  The operations require equal origins, except the product.
    for v, a, b in (('Length', 2, 4), ('Length', 3, 3), ('Length', 5, 1), ('Displacement<W>', 3, 2), ('Displacement<W>', 1, 4)):
        n = dims[v]
        k = n * (a + 1)
        t = 'auto const p = poly<P<%s, Instant, %d, Estrin>>(in); double c[40]; c[0] = in[0]; for (int k = 0; k < %d; ++k) c[1 + k] = in[%d + k]; auto const q = poly<P<%s, Instant, %d, Estrin>>(c);' % (v, a, n * (b + 1), 1 + k, v, b)
        g = lambda x, i, a=a, b=b, n=n, k=k: (P.of(x, i, a, n), P.of(x, [i[0]] + list(i[1 + k:]), b, n))
        for op, f in (('+', lambda u, v: u + v), ('-', lambda u, v: u - v)):
            ob('%s %d %s %d' % (v, a, op, b), 1 + k + n * (b + 1), t + 'wp(out, p %s q);' % op, lambda x, i, g=g, f=f: (lambda p, q: p.zip(q, f).flat())(*g(x, i)))
        if n == 1:
            ob('%s %d times %d' % (v, a, b), 1 + k + n * (b + 1), t + 'wp(out, p * q);', lambda x, i, g=g: (lambda p, q: p.times(q).flat())(*g(x, i)))
        else:
            ob('%s %d inner %d' % (v, a, b), 1 + k + n * (b + 1), t + 'wp(out, PointwiseInnerProduct(p, q));', lambda x, i, g=g: (lambda p, q: p.times(q, lambda u, v: [x.dot(u, v)]).flat())(*g(x, i)))
            ob('%s %d by scalars %d' % (v, a, b), 1 + k + b + 1, t.replace('q = poly<P<Displacement<W>', 'q = poly<P<Mass') + 'wp(out, q * p); wp(out + %d, p * q);' % (1 + n * (a + b + 1)),
               lambda x, i, a=a, b=b, k=k: [P(x, i[0], [[y] for y in i[1 + k:1 + k + b + 1]]).times(P.of(x, i, a, 3)).flat()] * 2)
    for v, d in (('Length', 3), ('Displacement<W>', 2)):
        n = dims[v]
        k = 1 + n * (d + 1)
        t = 'auto p = poly<P<%s, Instant, %d, Estrin>>(in); double const s = in[%d]; Mass const m = s * Kilogram; ' % (v, d, k)
        for nm, e, f in (('left', 's * p', lambda s, u: s * u), ('right', 'p * s', lambda s, u: s * u), ('quotient', 'p / s', lambda s, u: u / s), ('left mass', 'm * p', lambda s, u: s * u),
                         ('right mass', 'p * m', lambda s, u: s * u), ('mass quotient', 'p / m', lambda s, u: u / s), ('negation', '-p', lambda s, u: -u)):
            ob('%s %s %d' % (nm, v, d), k + 1, t + 'wp(out, %s);' % e, lambda x, i, d=d, n=n, k=k, f=f: [i[0]] + [f(x(i[k]), x(u)) for u in i[1:k]])
        for nm, e, f in (('*=', 'p *= s', lambda s, u: s * u), ('/=', 'p /= s', lambda s, u: u / s)):
            ob('%s %s %d' % (nm, v, d), k + 1, t + '%s; wp(out, p);' % e, lambda x, i, d=d, n=n, k=k, f=f: [i[0]] + [f(x(i[k]), x(u)) for u in i[1:k]])
        m = k - 1
        t = 'auto p = poly<P<%s, Instant, %d, Estrin>>(in); double c[40]; c[0] = in[0]; for (int k = 0; k < %d; ++k) c[1 + k] = in[%d + k]; auto const q = poly<P<%s, Instant, %d, Estrin>>(c);' % (v, d, m, k, v, d)
        ob('+= %s %d' % (v, d), k + m, t + 'p += q; wp(out, p);', lambda x, i, k=k, m=m: [i[0]] + [x(i[1 + j]) + x(i[k + j]) for j in range(m)])
        ob('-= %s %d' % (v, d), k + m, t + 'p -= q; wp(out, p);', lambda x, i, k=k, m=m: [i[0]] + [x(i[1 + j]) - x(i[k + j]) for j in range(m)])
    # Affine values.
    t = ('auto const p = poly<P<Position<W>, Instant, 2, Estrin>>(in); double c[40]; c[0] = in[0]; for (int k = 0; k < 12; ++k) c[1 + k] = in[10 + k]; '
         'auto const q = poly<P<Position<W>, Instant, 3, Estrin>>(c); auto const d = poly<P<Displacement<W>, Instant, 3, Estrin>>(c); auto const s = get_(in + 22, (Position<W>*)nullptr); auto const e = get_(in + 22, (Displacement<W>*)nullptr); ')
    three = lambda x, i: (P.of(x, i, 2, 3), P.of(x, [i[0]] + list(i[10:]), 3, 3), P(x, i[0], [i[22:25]]))
    add, sub = (lambda u, v: u + v), (lambda u, v: u - v)
    for nm, e, f in (('affine difference', 'p - q', lambda p, q, s: p.zip(q, sub)), ('affine sum', 'p + d', lambda p, q, s: p.zip(q, add)), ('affine sum reversed', 'd + p', lambda p, q, s: p.zip(q, add)),
                     ('affine minus value', 'p - s', lambda p, q, s: p.zip(s, sub)), ('value minus affine', 's - p', lambda p, q, s: s.zip(p, sub)), ('vector plus point', 'd + s', lambda p, q, s: q.zip(s, add)),
                     ('point plus vector', 's + d', lambda p, q, s: q.zip(s, add)), ('vectors plus vector', 'd + e', lambda p, q, s: q.zip(s, add)), ('vector plus vectors', 'e + d', lambda p, q, s: q.zip(s, add)),
                     ('vector minus vectors', 'e - d', lambda p, q, s: s.zip(q, sub)), ('vectors minus vector', 'd - e', lambda p, q, s: q.zip(s, sub))):
        ob(nm, 25, t + 'wp(out, %s);' % e, lambda x, i, f=f: f(*three(x, i)).flat())
    # Conversions.
    ob('higher degree', 4, 'wp(out, P<Length, Instant, 5, Estrin>(poly<P<Length, Instant, 2, Estrin>>(in)));', lambda x, i: list(i) + [0] * 3)
    ob('other evaluator', 4, 'wp(out, P<Length, Instant, 2, Horner>(poly<P<Length, Instant, 2, Estrin>>(in)));', lambda x, i: list(i))
    ob('policy', 8, 'auto const r = Policy::AlwaysEstrinWithoutFMA().WithEvaluator(poly<P<Length, Instant, 5, Estrin>>(in)); w(out, (*r)(get_(in + 7, (Instant*)nullptr)));', lambda x, i: P.of(x, i, 5).at(i[7]))
    # Composition.
    for a, b in ((3, 2), (2, 3), (4, 1), (1, 4), (5, 2), (0, 3), (3, 0)):
        def compose(x, i, a=a, b=b):
            c = [x(v) for v in i[1:a + 2]]
            q = P.of(x, i[a + 2:], b)
            q.c[0] = [q.c[0][0] - x(i[0])]
            r = P(x, q.o, [[c[a]]])
            for v in reversed(c[:a]):
                r = r.times(q)
                r.c[0] = [r.c[0][0] + v]
            return (r.flat() + [0] * (a * b + 2))[:a * b + 2]
        ob('compose %d %d' % (a, b), a + b + 4, 'wp(out, Compose(poly<P<Length, Time, %d, Estrin>>(in), poly<P<Time, Instant, %d, Estrin>>(in + %d)));' % (a, b, a + 2), compose)
    ob('identity', 2, 'wp(out, P<Length, Length, 1, Estrin>());', lambda x, i: [0, 0, 0])
    ob('is zero', 4, 'auto p = poly<P<Length, Instant, 2, Estrin>>(in); p *= 0; out[0] = p.is_zero() ? 1 : 0; out[1] = P<Length, Instant, 2, Estrin>({0 * Metre, 0 * Metre / Second, 1 * Unit<Acceleration>}, Instant()).is_zero() ? 1 : 0;', lambda x, i: [1, 0])
    return obs


APPROXIMATIONS = PRELUDE + '''
#include "numerics/finite_difference.hpp"
#include "numerics/hermite2.hpp"
#include "numerics/hermite3.hpp"
#include "numerics/legendre.hpp"
#include "numerics/newhall.hpp"
#include "numerics/polynomial_in_чебышёв_basis.hpp"
#include "numerics/quadrature.hpp"
#include "numerics/root_finders.hpp"
using namespace principia::geometry::_direct_sum;
using namespace principia::numerics::_finite_difference;
using namespace principia::numerics::_hermite2;
using namespace principia::numerics::_hermite3;
using namespace principia::numerics::_legendre;
using namespace principia::numerics::_newhall;
using namespace principia::numerics::_polynomial_in_чебышёв_basis;
using namespace principia::numerics::_quadrature;
using namespace principia::numerics::_root_finders;
template<typename V, int d> static PolynomialInЧебышёвBasis<V, Instant, d> series(double const* in) {
  std::array<V, d + 1> c;
  constexpr int n = requires(V v) { v.coordinates(); } ? 3 : 1;
  for (int k = 0; k <= d; ++k) { c[k] = get_(in + 2 + n * k, (V*)nullptr); }
  return {c, get_(in, (Instant*)nullptr), get_(in + 1, (Instant*)nullptr)};
}
static Instant ti(double x) { return get_(&x, (Instant*)nullptr); }
'''


def чебышёв(n):
    """The coefficients of Tₙ."""
    a, b = [Fr(1)], [Fr(0), Fr(1)]
    for _ in range(n):
        a, b = b, [(2 * b[k - 1] if k else 0) - (a[k] if k < len(a) else 0) for k in range(len(b) + 1)]
    return a


def solve(a, b):
    """x such that a x = b, for matrices of fractions."""
    n = len(a)
    m = [list(u) + list(v) for u, v in zip(a, b)]
    for k in range(n):
        p = next(i for i in range(k, n) if m[i][k])
        m[k], m[p] = m[p], m[k]
        f = m[k][k]
        m[k] = [v / f for v in m[k]]
        for i in range(n):
            if i != k and m[i][k]:
                f = m[i][k]
                m[i] = [u - f * v for u, v in zip(m[i], m[k])]
    return [r[n:] for r in m]


def newhall(degree, w=Fr(2, 5), divisions=8):
    """The matrix from the positions and velocities, from the start to the end of [-1, 1], to the coefficients in the
    Чебышёв basis: a least-squares fit which goes exactly through the ends [New89]."""
    def at(c, x, d):
        if d:
            c = [k * c[k] for k in range(1, len(c))]
        return sum((v * x ** k for k, v in enumerate(c)), Fr(0))
    t = [чебышёв(k) for k in range(degree + 1)]
    rows = [[at(t[j], Fr(2 * i - divisions, divisions), d) for j in range(degree + 1)] for i in range(divisions + 1) for d in (0, 1)]
    weight = [Fr(1), w * w] * (divisions + 1)
    ends = [0, 1, 2 * divisions, 2 * divisions + 1]
    n, m = degree + 1, len(rows)
    a = [[sum(rows[r][i] * weight[r] * rows[r][j] for r in range(m)) for j in range(n)] + [rows[e][i] for e in ends] for i in range(n)] + [rows[e] + [Fr(0)] * 4 for e in ends]
    b = [[rows[r][i] * weight[r] for r in range(m)] for i in range(n)] + [[Fr(int(r == e)) for r in range(m)] for e in ends]
    return solve(a, b)[:n], t


def approximations():
    obs = []

    def ob(name, n, body, spec, where, **kw):
        obs.append(O(name, body, n, spec, where=where, **kw))
    # Чебышёв series.
    wh = 'numerics/polynomial_in_чебышёв_basis_body.hpp'
    for v, n in (('Length', 1), ('Displacement<W>', 3)):
        for d in ((0, 1, 2, 3, 4, 5, 7, 10, 17) if n == 1 else (0, 1, 4, 7)):
            k = 2 + n * (d + 1)

            def at(x, i, d=d, n=n, k=k):
                u = (x(2) * x(i[k]) - x(i[0]) - x(i[1])) / (x(i[1]) - x(i[0]))
                du = x(2) / (x(i[1]) - x(i[0]))
                p, q = [x(0)] * n, [x(0)] * n
                a, b, da, db = x(1), u, x(0), x(1)
                for j in range(d + 1):
                    c = [x(y) for y in i[2 + n * j:2 + n * j + n]]
                    p, q = x.add(p, x.mul(a, c)), x.add(q, x.mul(da * du, c))
                    a, b, da, db = b, x(2) * u * b - a, db, x(2) * b + x(2) * u * db - da
                return p, q
            t = 'auto const p = series<%s, %d>(in); auto const t = ti(in[%d]); double* o = out; ' % (v, d, k)
            # The argument is where the reduced argument is polynomial.
            ins = lambda x, k=k: [x.var('x0'), x.var('x0') + x(2) * x.var('h')] + [x.var('x%d' % j) for j in range(2, k)] + [x.var('x0') + x.var('h') * (x(1) + x.var('u'))]
            ob('series %s %d' % (v, d), ins, t + 'o += w(o, p(t)); o += w(o, p.EvaluateDerivative(t));', lambda x, i, at=at: at(x, i), wh)
            ob('series virtual %s %d' % (v, d), ins, 'auto const q = series<%s, %d>(in); Polynomial<%s, Instant> const& p = q; auto const t = ti(in[%d]); double* o = out;' % (v, d, v, k) +
               '%s a; std::remove_cvref_t<decltype(p.EvaluateDerivative(t))> b; p.EvaluateWithDerivative(t, a, b); o += w(o, a); o += w(o, b); o += w(o, p(t)); *o++ = p.degree(); w(o, q.lower_bound()); w(o + 1, q.upper_bound());' % v,
               lambda x, i, at=at, d=d: (lambda p: [p[0], p[1], p[0], d, i[0], i[1]])(at(x, i)), wh)
    # The companion matrix: its characteristic polynomial is proportional to the series.
    for d in (1, 2, 3, 4, 5):
        def companion(x, i, out, d=d):
            c = i[2:]
            t = [чебышёв(k) for k in range(d + 1)]
            m = [out[d * r:d * r + d] for r in range(d)]
            pairs = []
            for u in (Fr(0), Fr(1), Fr(-1), Fr(2), Fr(3), Fr(5, 7)):
                mat = [[(x(u) if r == s else x(0)) - m[r][s] for s in range(d)] for r in range(d)]
                val = x.sum([x(sum((a * u ** k for k, a in enumerate(t[j])), Fr(0))) * x(c[j]) for j in range(d + 1)])
                pairs.append((x(c[d]) * x(t[d][d]) * x.det(mat), val))
            return pairs
        obs.append(O('companion matrix %d' % d, 'auto const m = series<Length, %d>(in).FrobeniusCompanionMatrix(); for (int r = 0; r < %d; ++r) for (int s = 0; s < %d; ++s) out[%d * r + s] = m(r, s);' % (d, d, d, d), 3 + d, relation=companion, nout=d * d, where=wh))
    # Hermite splines.
    def fit3(x, i, n):
        # t0, t1, x0, x1, v0, v1, t.
        h = x(i[1]) - x(i[0])
        s = (x(i[2 + 4 * n]) - x(i[0])) / h
        a, b, c, d = ([x(v) for v in i[2 + k * n:2 + k * n + n]] for k in range(4))
        s2, s3 = s * s, s * s * s
        k = [x(2) * s3 - x(3) * s2 + x(1), x(3) * s2 - x(2) * s3, h * (s3 - x(2) * s2 + s), h * (s3 - s2)]
        dk = [(x(6) * s2 - x(6) * s) / h, (x(6) * s - x(6) * s2) / h, x(3) * s2 - x(4) * s + x(1), x(3) * s2 - x(2) * s]
        f = lambda w: [x.sum([w[j] * y for j, y in enumerate(col)]) for col in zip(a, b, c, d)]
        return f(k), f(dk)
    for v, n in (('Length', 1), ('Displacement<W>', 3), ('Position<W>', 3)):
        t = ('using V = %s; constexpr int n = %d; using D = std::remove_cvref_t<decltype((V{} - V{}) / Second)>; '
             'Hermite3<V, Instant> const h({ti(in[0]), ti(in[1])}, {get_(in + 2, (V*)nullptr), get_(in + 2 + n, (V*)nullptr)}, {get_(in + 2 + 2 * n, (D*)nullptr), get_(in + 2 + 3 * n, (D*)nullptr)}); ' % (v, n)).replace('V{} - V{}', 'std::declval<V>() - std::declval<V>()')
        ob('hermite 3 %s' % v, 3 + 4 * n, t + 'auto const t = ti(in[2 + 4 * n]); double* o = out; o += w(o, h(t)); o += w(o, h.EvaluateDerivative(t)); V a = h(t); D b{}; h.EvaluateWithDerivative(t, a, b); o += w(o, a); w(o, b);',
           lambda x, i, n=n: [fit3(x, i, n)] * 2, 'numerics/hermite3_body.hpp')
    d3 = ('using V = Displacement<W>; using D = Velocity<W>; Hermite3<V, Instant> const h({ti(in[0]), ti(in[1])}, {get_(in + 2, (V*)nullptr), get_(in + 5, (V*)nullptr)}, {get_(in + 8, (D*)nullptr), get_(in + 11, (D*)nullptr)}); '
          'Hermite3<V, Instant> const g({ti(in[0]), ti(in[1])}, {get_(in + 15, (V*)nullptr), get_(in + 18, (V*)nullptr)}, {get_(in + 21, (D*)nullptr), get_(in + 24, (D*)nullptr)}); auto const t = ti(in[14]);')
    both = lambda x, i: (fit3(x, i, 3)[0], fit3(x, list(i[:2]) + list(i[15:27]) + [i[14]], 3)[0])
    for nm, e, f in (('sum', 'h + g', lambda x, a, b: x.add(a, b)), ('difference', 'h - g', lambda x, a, b: x.sub(a, b)), ('negation', '-h', lambda x, a, b: x.mul(-1, a)), ('identity', '+h', lambda x, a, b: a)):
        ob('hermite 3 %s' % nm, 27, d3 + 'w(out, (%s)(t));' % e, lambda x, i, f=f: f(x, *both(x, i)), 'numerics/hermite3_body.hpp')

    def fit2(x, i):
        # t0, t1, x0, x1, v0, t.
        h = x(i[1]) - x(i[0])
        u = x(i[5]) - x(i[0])
        c = (x(i[3]) - x(i[2]) - h * x(i[4])) / (h * h)
        return [x(i[2]) + u * x(i[4]) + u * u * c, x(i[4]) + x(2) * u * c, x(i[0]) - x(i[4]) / (x(2) * c)]
    ob('hermite 2', lambda x: (x.dom.positive.add('h'), [x.var('x0'), x.var('x0') + x.var('h')])[1] + [x.var('x%d' % k) for k in range(2, 6)], 'Hermite2<Length, Instant> const h({ti(in[0]), ti(in[1])}, {in[2] * Metre, in[3] * Metre}, in[4] * Metre / Second); auto const t = ti(in[5]); w(out, h.Evaluate(t)); w(out + 1, h.EvaluateDerivative(t)); w(out + 2, h.FindExtremum());',
       fit2, 'numerics/hermite2_body.hpp')
    # The norms of Hermite splines, as polynomials in the argument less the lower bound.
    cubic = ('double const h = in[0]; auto const f = [in](double t) { return ((in[4] * t + in[3]) * t + in[2]) * t + in[1]; }; auto const g = [in](double t) { return (3 * in[4] * t + 2 * in[3]) * t + in[2]; }; '
             'Hermite3<Length, Instant> const s({ti(0), ti(h)}, {f(0) * Metre, f(h) * Metre}, {g(0) * Metre / Second, g(h) * Metre / Second});')

    def extent(i):
        import mpmath
        h, a, b, c, d = i
        q = (2 * c) ** 2 - 12 * d * b
        ts = [(-2 * c + e * mpmath.sqrt(q)) / (6 * d) for e in (1, -1)] if q >= 0 and d else [-b / (2 * c)] if not d and c else []
        return max(abs(((d * t + c) * t + b) * t + a) for t in [0, h] + [t for t in ts if 0 < t < h])
    # The derivative is 3 k (t - r) (t - r - g), and the roots are rational.
    def spline(sign, k):
        def ins(x):
            x.dom.positive |= {'h', 'k', 'g', 'r'}
            r, g, a = ({0: x.var('r'), 1: -x.var('r')}[k] if sign else x(0)), x.var('g'), x.var('a')
            s = x(sign or 1) * x.var('k')
            return [x.var('h'), a, x(3) * s * r * (r + g), x(Fr(-3, 2)) * s * (x(2) * r + g), s]
        return ins

    def zeros(i):
        # The zeros of the derivative inside the interval.
        h, a, b, c, d = i
        import mpmath
        q = mpmath.sqrt((2 * c) ** 2 - 12 * d * b)
        return sorted(t for t in ((-2 * c + e * q) / (6 * d) for e in (1, -1)) if 0 <= t <= h)
    for sign in (1, -1):
        for k in (0, 1):
            obs.append(O('hermite 3 extrema %d %d' % (sign, k), cubic + 'auto const e = s.FindExtrema(); out[0] = e.size(); out[1] = e.size() > 0 ? (*e.begin() - Instant()) / Second : 0; out[2] = e.size() > 1 ? (*(e.begin() + 1) - Instant()) / Second : 0;', spline(sign, k),
                         points=lambda i, o: (lambda z: o[0] == len(z) and all(abs(p - q) < 1e-20 * (1 + abs(q)) for p, q in zip(sorted(o[1:1 + len(z)]), z)))(zeros(i)), nout=3, where='numerics/hermite3_body.hpp'))
            # At least, the extrema inside the interval are bounded.
            obs.append(O('hermite 3 bound of the extrema %d %d' % (sign, k), cubic + 'w(out, s.LInfinityL₁NormUpperBound());', spline(sign, k),
                         points=lambda i, o: all(o[0] >= abs(((i[4] * t + i[3]) * t + i[2]) * t + i[1]) * (1 - Fr(1, 10 ** 20)) for t in zeros(i)), nout=1, where='numerics/hermite3_body.hpp', limit=300))
    obs.append(O('hermite 3 upper bound', cubic + 'w(out, s.LInfinityL₁NormUpperBound());', spline(1, 0), points=lambda i, o: o[0] >= extent(i) * (1 - Fr(1, 10 ** 20)), nout=1, where='numerics/hermite3_body.hpp', limit=300))

    def flat_start(sign, k):
        def ins(x):
            x.dom.positive |= {'h', 'k', 'g'}
            # t^2 (c + d t), c and d of any signs.
            return [x.var('h'), x(0), x(0), x(sign) * x.var('k') * x.var('g'), x(k) * x.var('k')]
        return ins
    for sign in (1, -1):
        for k in (1, -1):
            obs.append(O('hermite 3 norm %d %d' % (sign, k), cubic + 'w(out, s.LInfinityL₂Norm());', flat_start(sign, k), points=lambda i, o: abs(o[0] - extent(i)) <= extent(i) / 10 ** 20, nout=1, where='numerics/hermite3_body.hpp', limit=300))
    # Quadratic equations, from their solutions.
    qr = 'auto const r = SolveQuadraticEquation<Instant, Length>(ti(in[0]), in[1] * Metre, in[2] * Metre / Second, in[3] * Unit<Acceleration>); out[0] = r.size(); if (r.size() > 0) w(out + 1, *r.begin()); if (r.size() > 1) w(out + 2, *(r.begin() + 1));'
    for sign in (1, -1):
        def quadratic(x, kind, sign=sign):
            k, r, g, o = (x.var(v) for v in 'krgo')
            x.dom.positive |= {'k', 'g'}
            k = x(sign) * k
            return {2: [o, k * r * (r + g), x(0) - k * (x(2) * r + g), k], 1: [o, k * r * r, x(-2) * k * r, k], 0: [o, k * (r * r + g * g), x(-2) * k * r, k]}[kind], [x(kind)] + [o + r, o + r + g][:kind]
        for kind in (0, 1, 2):
            ob('quadratic %d %d' % (sign, kind), lambda x, q=quadratic, kind=kind: q(x, kind)[0], qr, lambda x, i, q=quadratic, kind=kind: q(x, kind)[1], 'numerics/root_finders_body.hpp')
    # Finite differences: the derivative of the interpolating polynomial at one of the points.
    for n in range(2, 10):
        for j in range(n):
            def derivative(x, i, n=n, j=j):
                r = []
                for k in range(n):
                    # The derivative of the Lagrange polynomial of the point k at the point j.
                    den = Fr(1)
                    for m in range(n):
                        if m != k:
                            den *= k - m
                    num = Fr(0)
                    for l in range(n):
                        if l != k:
                            p = Fr(1)
                            for m in range(n):
                                if m not in (k, l):
                                    p *= j - m
                            num += p
                    r.append(x(num / den) * x(i[1 + k]))
                return [x.sum(r) / x(i[0])]
            ob('finite difference %d %d' % (n, j), n + 1, 'std::array<Length, %d> a; for (int k = 0; k < %d; ++k) a[k] = in[1 + k] * Metre; w(out, FiniteDifference(a, in[0] * Second, %d));' % (n, n, j),
               derivative, 'numerics/finite_difference_body.hpp')
    # Newhall approximations, from arbitrary positions and velocities.
    qv = 'std::vector<DirectSum<%s, Variation<%s>>> qv; for (int k = 0; k < 9; ++k) qv.emplace_back(get_(in + 2 + k, (%s*)nullptr), get_(in + 11 + k, (Speed*)nullptr));'
    for d in range(3, 18):
        def fit(x, i, d=d, monomial=False):
            c, t = newhall(d)
            h = (x(i[1]) - x(i[0])) / x(2)
            qs = flat([[x(i[2 + k]), h * x(i[11 + k])] for k in range(9)])
            r = [x.sum([x(a) * b for a, b in zip(row, qs)]) for row in c]
            if monomial:
                m = [x.sum([x(t[j][k]) * r[j] for j in range(k, d + 1)]) / x.pow(h, k) for k in range(d + 1)]
                return [x(i[0]) + h] + m + [r[d]]
            return r + [r[d], i[0], i[1]]
        near = Fr(1, 10 ** 9)
        q1 = (qv % (('Length',) * 3))
        ins = lambda x: [x.var('x0'), x.var('x0') + x(2) * x.var('h')] + [x.var('q%d' % k) for k in range(18)]
        ob('newhall %d' % d, ins, q1 + 'Length e; auto const s = NewhallApproximationInЧебышёвBasis<Length, %d>(qv, ti(in[0]), ti(in[1]), e);' % d +
           'auto const* c = reinterpret_cast<double const*>(reinterpret_cast<char const*>(&s) + sizeof(void*)); for (int k = 0; k <= %d; ++k) out[k] = c[k]; w(out + %d, e); w(out + %d, s.lower_bound()); w(out + %d, s.upper_bound());' % (d, d + 1, d + 2, d + 3), fit,
           'numerics/newhall_matrices.mathematica.h', tol=near)
        ob('newhall monomial %d' % d, ins, q1 + 'Length e; wp(out, NewhallApproximationInMonomialBasis<Length, %d, Estrin>(qv, ti(in[0]), ti(in[1]), e)); w(out + %d, e);' % (d, d + 2),
           lambda x, i, fit=fit: fit(x, i, monomial=True), 'numerics/newhall_matrices.mathematica.h', tol=near)
    for d in (3, 4, 8, 17):
        ob('newhall of degree %d' % d, ins, q1 + 'Length e; auto const p = NewhallApproximationInMonomialBasis<Length>(%d, qv, ti(in[0]), ti(in[1]), Policy::AlwaysEstrin(), e); auto const& q = dynamic_cast<P<Length, Instant, %d, Estrin> const&>(*p); wp(out, q); w(out + %d, e);' % (d, d, d + 2),
           lambda x, i, d=d: (lambda c, t, h: (lambda r: [x(i[0]) + h] + [x.sum([x(t[j][k]) * r[j] for j in range(k, d + 1)]) / x.pow(h, k) for k in range(d + 1)] + [r[d]])(
               [x.sum([x(a) * b for a, b in zip(row, flat([[x(i[2 + k]), h * x(i[11 + k])] for k in range(9)]))]) for row in c]))(*newhall(d), (x(i[1]) - x(i[0])) / x(2)),
           'numerics/newhall_body.hpp', tol=near)
    # Quadratures of polynomials.
    for n in (1, 2, 3, 4, 5):
        for m in sorted({0, 1, 2 * n - 2, 2 * n - 1}):
            ob('gauss legendre %d %d' % (n, m), 2, 'w(out, GaussLegendre<%d>([](Instant const& t) { double const x = (t - Instant()) / Second; double r = 1; for (int k = 0; k < %d; ++k) r *= x; return r * Metre; }, ti(in[0]), ti(in[1])));' % (n, m),
               lambda x, i, m=m: [(x.pow(x(i[1]), m + 1) - x.pow(x(i[0]), m + 1)) / x(m + 1)], 'numerics/quadrature_body.hpp', tol=Fr(1, 10 ** 10))
        ob('midpoint %d' % n, 3, 'w(out, Midpoint([in](Instant const& t) { double const x = (t - Instant()) / Second; return (in[2] + x + x * x) * Metre; }, ti(in[0]), ti(in[1]), %d));' % n,
           lambda x, i, n=n: [x.sum([(lambda t: x(i[2]) + t + t * t)(x(i[0]) + (x(i[1]) - x(i[0])) * x(Fr(2 * k + 1, 2 * n))) for k in range(n)]) * (x(i[1]) - x(i[0])) / x(n)], 'numerics/quadrature_body.hpp')
    # Legendre polynomials.
    def legendre(n):
        a, b = [Fr(1)], [Fr(0), Fr(1)]
        for k in range(1, n + 1):
            a, b = b, [((2 * k + 1) * (b[j - 1] if j else 0) - k * (a[j] if j < len(a) else 0)) / Fr(k + 1) for j in range(len(b) + 1)]
        return a
    for n in range(0, 12):
        ob('legendre %d' % n, 1, 'w(out, LegendrePolynomial<%d>()(in[0]));' % n, lambda x, i, n=n: [x.sum([x(c) * x.pow(x(i[0]), k) for k, c in enumerate(legendre(n))])], 'numerics/legendre_body.hpp')
    return obs


def main(c):
    gs = {}
    for v, extra in VARIANTS.items():
        gs[('polynomials ' + v).strip()] = (PRELUDE, polynomials(), extra)
        gs[('approximations ' + v).strip()] = (APPROXIMATIONS, approximations(), extra)
    run(c, gs)


if __name__ == '__main__':
    vlib.main(main, 'C15', 'other', RULE)
