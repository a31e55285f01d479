#!/usr/bin/env python3
"""C16: the gravitational forces and potentials are those of the bodies."""
import os, sys
from fractions import Fraction as Fr
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'), os.path.dirname(os.path.abspath(__file__))]
import vlib
from algebra import Obligation as O, flat, run
from C12 import VARIANTS
from poly import Poly

RULE = ('Each function computing gravitational accelerations, potentials or jerks, compiled to LLVM IR and abstracted to rational '
        'functions of the coefficients of the potential and of the positions, equals its definition as a rational function.')

PRELUDE = '''
#include "physics/geopotential.hpp"
#include "physics/harmonic_damping.hpp"
#include "physics/oblate_body.hpp"
using namespace principia::base::_algebra;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_space;
using namespace principia::physics::_geopotential;
using namespace principia::physics::_harmonic_damping;
using namespace principia::physics::_oblate_body;
using namespace principia::physics::_rotating_body;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using W = Frame<struct WT, Inertial>;
template<typename Q> static double s(Q const& x) { return x / Unit<Q>; }
static double s(double x) { return x; }
template<typename Q, typename Fr> static void w(double* p, Vector<Q, Fr> const& x) { p[0] = s(x.coordinates().x); p[1] = s(x.coordinates().y); p[2] = s(x.coordinates().z); }
using B = OblateBody<W>;
using G = Geopotential<W>;
using S = G::SurfaceFrame;
// The orientation of the body, and the direction of its equatorial axis.
static double const* q;
__attribute__((always_inline)) static Rotation<S, W> axes() { return Rotation<S, W>(Quaternion(q[0], R3Element<double>(q[1], q[2], q[3]))); }
template<> template<> Rotation<S, W> RotatingBody<W>::FromSurfaceFrame<S>(Instant const& t) const { return axes(); }
'''
PRELUDE += '''
struct Fixture {
  alignas(B) char b[sizeof(B)];
  alignas(G) char g[sizeof(G)];
  B& body() { return *reinterpret_cast<B*>(b); }
  G& geopotential() { return *reinterpret_cast<G*>(g); }
  // in: the reference radius, then, for each degree starting with 2 and each order, the coefficients of cos and sin.
  __attribute__((always_inline)) Fixture(const double* in, int degree, bool zonal) {
    new (&body().parameters_) B::Parameters(in[0] * Metre);
    ++in;
    for (int n = 2; n <= degree; ++n) {
      for (int m = 0; m <= n; ++m) {
        body().parameters_.cos_(n, m) = *in++;
        body().parameters_.sin_(n, m) = *in++;
      }
    }
    body().parameters_.degree_ = degree;
    body().parameters_.is_zonal_ = zonal;
    auto const v = [](double x, double y, double z) { return axes()(Vector<double, S>({x, y, z})); };
    new (const_cast<Vector<double, W>*>(&body().polar_axis_)) Vector<double, W>(v(0, 0, 1));
    new (const_cast<Vector<double, W>*>(&body().equatorial_)) Vector<double, W>(v(q[4], q[5], 0));
    new (const_cast<Vector<double, W>*>(&body().biequatorial_)) Vector<double, W>(v(-q[5], q[4], 0));
    new (&geopotential().body_) decltype(geopotential().body_)(&body());
    new (&geopotential().degree_damping_) decltype(geopotential().degree_damping_)();
  }
};
template<int degree> static void direct(const double* in, double* out, bool zonal) {
  Displacement<W> const r({in[0] * Metre, in[1] * Metre, in[2] * Metre});
  Length const norm = in[3] * Metre;
  q = in + 4;
  Fixture f(in + 10, degree, zonal);
  G& g = f.geopotential();
  for (int n = 0; n <= degree; ++n) { g.degree_damping_.emplace_back((1 << 20) * Metre); }
  new (&g.sectoral_damping_) HarmonicDamping((1 << 20) * Metre);
  using All = typename G::template AllDegrees<std::make_integer_sequence<int, degree + 1>>;
  w(out, All::Acceleration(g, Instant(), r, norm, norm * norm, 1 / (norm * norm * norm)));
  out[3] = s(All::Potential(g, Instant(), r, norm, norm * norm, 1 / (norm * norm * norm)));
}
template<int degree> static void damped(const double* in, double* out, bool zonal) {
  Displacement<W> const r({in[0] * Metre, in[1] * Metre, in[2] * Metre});
  Length const norm = in[3] * Metre;
  q = in + 4;
  // The thresholds, that of the sectoral terms of degree 2 being the first one.
  double const* const thresholds = in + 10;
  Fixture f(in + 10 + degree, degree, zonal);
  G& g = f.geopotential();
  for (int n = 0; n <= degree; ++n) { g.degree_damping_.emplace_back(n < 2 ? Infinity<Length> : thresholds[n - 1] * Metre); }
  new (&g.sectoral_damping_) HarmonicDamping(thresholds[0] * Metre);
  w(out, g.GeneralSphericalHarmonicsAcceleration(Instant(), r, norm, norm * norm, 1 / (norm * norm * norm)));
  out[3] = s(g.GeneralSphericalHarmonicsPotential(Instant(), r, norm, norm * norm, 1 / (norm * norm * norm)));
}
'''


def legendre(n):
    """The coefficients of the Legendre polynomial."""
    a, b = [Fr(1)], [Fr(0), Fr(1)]
    for k in range(1, n + 1):
        a, b = b, [((2 * k + 1) * (b[j - 1] if j else 0) - k * (a[j] if j < len(a) else 0)) / Fr(k + 1) for j in range(len(b) + 1)]
    return a


def derivative(p, m):
    for _ in range(m):
        p = [k * c for k, c in enumerate(p)][1:]
    return p


def factorial(n):
    r = 1
    for k in range(2, n + 1):
        r *= k
    return r


def root(q, digits=80):
    """The square root of a rational, as a rational."""
    import math
    s = 10 ** (2 * digits)
    return Fr(math.isqrt(q.numerator * s // q.denominator), 10 ** digits)


def normalization(n, m):
    return root(Fr((1 if m == 0 else 2) * (2 * n + 1) * factorial(n - m), factorial(n + m)))


AXES = [Fr(2, 9), Fr(4, 9), Fr(5, 9), Fr(6, 9)]


def harmonic(x, n, m, direction, rho, radius, sigma=(1, 0)):
    """The contributions of C and S to the gradient of (R/r)^n P(sin β) (C cos mλ + S sin mλ) / r, in the axes of the body,
    and to the opposite of the function itself."""
    cb, sb, cl, sl = direction
    d = derivative(legendre(n), m)
    poly = lambda c: x.sum([x(a) * x.pow(sb, k) for k, a in enumerate(c)])
    p, dp = poly(d), poly(derivative(d, 1))
    cos, sin = x(1), x(0)
    for _ in range(m):
        cos, sin = cos * cl - sin * sl, sin * cl + cos * sl
    r = x.pow(radius, n) / x.pow(rho, n + 1)
    k = x(normalization(n, m))
    e_r = [cb * cl, cb * sl, sb]
    e_b = [-(sb * cl), -(sb * sl), cb]
    e_l = [-sl, cl, x(0)]
    b = x.pow(cb, m) * p
    db = x.pow(cb, m + 1) * dp - (x(m) * sb * x.pow(cb, m - 1) * p if m else x(0))
    res = []
    for l, dl in ((cos, -sin), (sin, cos)):
        a = x.mul(x(-(n + 1)) * b * l, e_r)
        a = x.add(a, x.mul(db * l, e_b))
        if m:
            a = x.add(a, x.mul(x(m) * x.pow(cb, m - 1) * p * dl, e_l))
        # The gradient of σ is radial.
        a = x.add(x.mul(sigma[0], a), x.mul(x(sigma[1]) * rho * b * l, e_r))
        res.append([k * r / rho * c for c in a] + [-(k * r * x(sigma[0]) * b * l)])
    return res


DIRECTIONS = {
    'symbolic': None,
    'a': (Fr(5, 13), Fr(12, 13), Fr(3, 5), Fr(4, 5)), 'b': (Fr(20, 29), Fr(-21, 29), Fr(-8, 17), Fr(15, 17)),
    'equator': (Fr(1), Fr(0), Fr(-7, 25), Fr(-24, 25)), 'pole': (Fr(0), Fr(1), Fr(1), Fr(0)), 'south': (Fr(0), Fr(-1), Fr(1), Fr(0))}


def position(x, which):
    if which == 'symbolic':
        x.dom.positive |= {'cb'}
        x.dom.rules['sb'] = (2, Poly.const(1) - Poly.var('cb') * Poly.var('cb'))
        x.dom.rules['cl'] = (2, Poly.const(1) - Poly.var('sl') * Poly.var('sl'))
        return [x.var(v) for v in ('cb', 'sb', 'cl', 'sl')]
    return [x(v) for v in DIRECTIONS[which]]


def coefficients(degree):
    return [(n, m) for n in range(2, degree + 1) for m in range(n + 1)]


def inputs(degree, which, rho, thresholds=()):
    def f(x):
        d = position(x, which)
        cb, sb, cl, sl = d
        r = x.rotate([x(c) for c in AXES], x.mul(rho, [cb * cl, cb * sl, sb]))
        return r + [x(rho)] + [x(c) for c in AXES + [Fr(3, 5), Fr(4, 5)]] + [x(c) for c in thresholds] + [x.var('R')] + [x.var('%s%d_%d' % (k, n, m)) for n, m in coefficients(degree) for k in 'CS']
    return f


def part(x, value, var):
    """The coefficient of a variable in a polynomial (which is linear in it)."""
    from irval import V
    assert value.d is V.ONE, value.d
    t = {}
    for k, c in value.n.t.items():
        e = dict(k)
        if var in e:
            assert e[var] == 1
            t[tuple((v, y) for v, y in k if v != var)] = c
    return V(Poly(t), None, x.dom)


def damping(rho, s):
    """σ and its derivative: a cubic from 1 at s to 0 at 3 s, flat at both ends."""
    if rho <= s:
        return (1, 0)
    if rho >= 3 * s:
        return (0, 0)
    u = (rho - s) / (2 * s)
    return (1 - 3 * u * u + 2 * u * u * u, (6 * u * u - 6 * u) / (2 * s))


def compared(degree, which, rho, zonal=False, thresholds=()):
    def f(x, i, out):
        d = position(x, which)
        pairs = []
        known = set()
        for n, m in coefficients(degree):
            sigma = damping(rho, thresholds[0 if (n, m) == (2, 2) else n - 1]) if thresholds else (1, 0)
            want = harmonic(x, n, m, d, x(rho), i[10 + len(thresholds)], sigma)
            if (n, m) == (2, 1) or zonal and m > 0:
                want = [[x(0)] * 4] * 2
            for k, w in zip('CS', want):
                v = '%s%d_%d' % (k, n, m)
                known.add(v)
                a = x.rotate([x(c) for c in AXES], w[:3])
                if m == 0 and k == 'S':
                    a, w = [x(0)] * 3, [x(0)] * 4
                pairs += list(zip([part(x, o, v) for o in out], a + [w[3]]))
        # Nothing else.
        for o in out:
            for k, c in o.n.t.items():
                if not any(v in known for v, e in k):
                    pairs.append((o, x(0)))
        return pairs
    return f


def geopotential():
    obs = []
    wh = 'physics/geopotential_body.hpp'
    for which, degree, rho in (('symbolic', 4, Fr(3)), ('symbolic', 5, Fr(5, 4)), ('a', 30, Fr(5, 4)), ('b', 30, Fr(7, 3)), ('equator', 30, Fr(2)), ('pole', 30, Fr(4, 3)), ('south', 30, Fr(4, 3)), ('a', 2, Fr(3)), ('b', 3, Fr(3)), ('a', 11, Fr(3))):
        for zonal in (False, True):
            obs.append(O('harmonics %s %d%s' % (which, degree, ' zonal' * zonal), 'direct<%d>(in, out, %s);' % (degree, str(zonal).lower()), inputs(degree, which, rho),
                         relation=compared(degree, which, rho, zonal), nout=4, where=wh))
    # Damping, in particular the choice of the degree.
    def both(x, i, sign):
        r, s = x(i[0]), x(i[1])
        n = x(i[6])
        if sign < 0:
            return [n, i[5] * i[2], i[5] * i[3], i[5] * i[4], n]
        v = (r - s) / (x(2) * s)
        sigma, ds = x(1) - x(3) * v * v + x(2) * v * v * v, (x(6) * v * v - x(6) * v) / (x(2) * s)
        # ∇(σ ℜ) = (σ' ℜ + σ ℜ') r / |r|.
        return [sigma * n] + [(ds * n * r + i[5] * sigma) * x(c) for c in i[2:5]] + [sigma * n]
    for sign in (-1, 1):
        # r, s, r / |r|, ℜ', ℜ / r.
        def ins(x, sign=sign):
            x.dom.positive |= {'s', 'd'}
            r = x.var('s') + x.var('d') if sign > 0 else x.var('s')
            return [r, x.var('s') if sign > 0 else x.var('s') + x.var('d')] + [x.var(v) for v in ('u', 'v', 'w', 'p', 'n')]
        obs.append(O('damping %s' % ('beyond' if sign > 0 else 'within'), 'HarmonicDamping const h(in[1] * Metre); Length const r = in[0] * Metre; Inverse<Square<Length>> const f = in[6] * Unit<Inverse<Square<Length>>>, fp = in[5] * Unit<Inverse<Square<Length>>>; Inverse<Square<Length>> a, b; '
                     'Vector<Inverse<Square<Length>>, W> g; h.ComputeDampedRadialQuantities(r, r * r, Vector<double, W>({in[2], in[3], in[4]}), f, fp, a, g); h.ComputeDampedRadialQuantities(r, r * r, f, b); out[0] = s(a); w(out + 1, g); out[4] = s(b); out[5] = s(h.outer_threshold()); out[6] = s(h.inner_threshold());',
                     ins, lambda x, i, sign=sign: both(x, i, sign) + [x(3) * i[1], i[1]], where='physics/harmonic_damping_body.hpp'))
    for degree in (2, 3, 5, 7, 10, 30):
        for limit in range(1, degree + 1):
            if degree == 30 and limit not in (1, 2, 3, 4, 12, 29, 30):
                continue
            # Those beyond `limit` are not effective at all, the others are partly so, or not.
            rho = Fr(6)
            for k, sector in enumerate([0, 1] if limit == 2 else [limit > 2]):
                t = [Fr(20) - n * Fr(1, 4) if 3 * n < limit else Fr(11, 2) - n * Fr(1, 10) if n <= limit else Fr(3, 2) - n * Fr(1, 100) for n in range(2, degree + 1)]
                st = t[0] if degree == 2 else (t[0] + t[1]) / 2
                if limit == 2 and not sector:
                    st = Fr(3, 2) - Fr(1, 50)
                elif limit == 2:
                    st = Fr(4)
                elif limit < 2:
                    st = t[0]
                t = tuple([st] + t)
                for zonal in (False, True):
                    obs.append(O('limiting degree %d of %d%s%s' % (limit, degree, ' sectoral' * (limit == 2 and sector), ' zonal' * zonal), 'damped<%d>(in, out, %s);' % (degree, str(zonal).lower()), inputs(degree, 'b', rho, t),
                                 relation=compared(degree, 'b', rho, zonal, t), nout=4, where=wh))
    return obs


EPHEMERIS = '''
// A map searched linearly.
#define ABSL_CONTAINER_FLAT_HASH_MAP_H_
#include <memory>
#include <utility>
#include <vector>
namespace absl {
template<typename K, typename V, typename... R> class flat_hash_map {
 public:
  using value_type = std::pair<K const, V>;
  using key_type = K;
  using mapped_type = V;
  using iterator = value_type*;
  using const_iterator = value_type const*;
  iterator begin() { return p_; }
  iterator end() { return p_ + size_; }
  const_iterator begin() const { return p_; }
  const_iterator end() const { return p_ + size_; }
  bool empty() const { return size_ == 0; }
  std::size_t size() const { return size_; }
  template<typename T> iterator find(T const& k) { for (auto i = begin(); i != end(); ++i) { if (i->first == k) { return i; } } return end(); }
  template<typename T> const_iterator find(T const& k) const { for (auto i = begin(); i != end(); ++i) { if (i->first == k) { return i; } } return end(); }
  template<typename T> bool contains(T const& k) const { return find(k) != end(); }
  template<typename T> std::size_t count(T const& k) const { return contains(k); }
  template<typename T> V& at(T const& k) { return find(k)->second; }
  template<typename T> V const& at(T const& k) const { return find(k)->second; }
  template<typename T> V& operator[](T const& k) { return find(k)->second; }
  template<typename... A> std::pair<iterator, bool> emplace(A&&... a) { new (p_ + size_) value_type(std::forward<A>(a)...); return {p_ + size_++, true}; }
  template<typename... A> std::pair<iterator, bool> try_emplace(A&&... a) { return emplace(std::forward<A>(a)...); }
  template<typename... A> std::pair<iterator, bool> emplace_hint(iterator, A&&... a) { return emplace(std::forward<A>(a)...); }
  std::pair<iterator, bool> insert(value_type const& v) { return emplace(v); }
  void erase(iterator i) {}
  void reserve(std::size_t) {}
  void clear() { size_ = 0; }
 private:
  std::size_t size_ = 0;
  value_type* p_ = (value_type*)buffer_;
  alignas(value_type) char buffer_[6 * sizeof(value_type)];
};
}
#include "physics/ephemeris.hpp"
using namespace principia::base::_not_null;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_space;
using namespace principia::geometry::_symmetric_bilinear_form;
using namespace principia::physics::_continuous_trajectory;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_ephemeris;
using namespace principia::physics::_geopotential;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_tensors;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using namespace principia::base::_algebra;
using W = Frame<struct WT, Inertial>;
template<typename Q> static double s(Q const& x) { return x / Unit<Q>; }
static double s(double x) { return x; }
template<typename Q> static void w(double* p, Vector<Q, W> const& x) { p[0] = s(x.coordinates().x); p[1] = s(x.coordinates().y); p[2] = s(x.coordinates().z); }
template<typename Q> static Vector<Q, W> v(const double* p) { return Vector<Q, W>({p[0] * Unit<Q>, p[1] * Unit<Q>, p[2] * Unit<Q>}); }
static Position<W> x(const double* p) { return W::origin + v<Length>(p); }
static DegreesOfFreedom<W> dof(const double* p) { return {x(p), v<Speed>(p + 3)}; }
using E = Ephemeris<W>;
using G = Geopotential<W>;
using CT = ContinuousTrajectory<W>;
static double const* now;
// The trajectories are given by their positions and velocities; they only know of the time `*now`.
static void known(Instant const& t) { if (s(t - Instant()) != *now) { __builtin_trap(); } }
template<> Position<W> CT::EvaluatePositionLocked(Instant const& t) const { known(t); return x((const double*)this); }
template<> Velocity<W> CT::EvaluateVelocityLocked(Instant const& t) const { known(t); return v<Speed>((const double*)this + 3); }
template<> DegreesOfFreedom<W> CT::EvaluateDegreesOfFreedomLocked(Instant const& t) const { known(t); return dof((const double*)this); }
// The geopotentials are given by arbitrary combinations of their arguments.
template<typename R, typename N, typename S, typename C> static Vector<Quotient<Acceleration, GravitationalParameter>, W> acceleration(G const& g, Instant const& t, R const& r, N const& n, S const& n2, C const& c) {
  known(t);
  double const* const k = reinterpret_cast<double const* const&>(g.body_);
  Vector<double, W> const a = v<double>(k) * s(n) + v<double>(k + 3) * s(n2) + v<double>(k + 6) * s(c) + Vector<double, W>({k[9] * s(r.coordinates().x), k[10] * s(r.coordinates().y), k[11] * s(r.coordinates().z)});
  return a * Unit<Quotient<Acceleration, GravitationalParameter>>;
}
template<> Vector<Quotient<Acceleration, GravitationalParameter>, W> G::GeneralSphericalHarmonicsAcceleration(Instant const& t, Displacement<W> const& r, Length const& n, Square<Length> const& n2, Exponentiation<Length, -3> const& c) const { return acceleration(*this, t, r, n, n2, c); }
template<> Quotient<SpecificEnergy, GravitationalParameter> G::GeneralSphericalHarmonicsPotential(Instant const& t, Displacement<W> const& r, Length const& n, Square<Length> const& n2, Exponentiation<Length, -3> const& c) const {
  auto const a = acceleration(*this, t, r, n, n2, c).coordinates();
  return (s(a.x) + 2 * s(a.y) + 3 * s(a.z)) * Unit<Quotient<SpecificEnergy, GravitationalParameter>>;
}
struct Spherical : MassiveBody {
  Length r;
  Spherical(double mu, double r) : MassiveBody(MassiveBody::Parameters(mu * Unit<GravitationalParameter>)), r(r * Metre) {}
  Length min_radius() const override { return r; }
  Length mean_radius() const override { return 2 * r; }
  Length max_radius() const override { return 3 * r; }
};
struct Oblate : Spherical {
  using Spherical::Spherical;
  bool is_oblate() const override { return true; }
};
struct System {
  alignas(E) char e[sizeof(E)] = {};
  alignas(G) char g[3 * sizeof(G)];
  alignas(Oblate) char b[5 * sizeof(Oblate)];
  E const& ephemeris() const { return *reinterpret_cast<E const*>(e); }
  E& ephemeris() { return *reinterpret_cast<E*>(e); }
  E* operator->() { return &ephemeris(); }
  MassiveBody const* body(int i) { return (MassiveBody const*)(Spherical*)(b + i * sizeof(Oblate)); }
  std::vector<G>& geopotentials() { return ephemeris().geopotentials_; }
  // in: the time; for each body, its gravitational parameter, minimal radius, position, velocity; then for each geopotential, 12 coefficients.
  __attribute__((always_inline)) System(const double* in, int oblate, int spherical) {
    now = in++;
    E& eph = ephemeris();
    eph.number_of_oblate_bodies_ = oblate;
    eph.number_of_spherical_bodies_ = spherical;
    new (&eph.bodies_) decltype(eph.bodies_)();
    new (&eph.unowned_bodies_) decltype(eph.unowned_bodies_)();
    new (&eph.bodies_indices_) decltype(eph.bodies_indices_)();
    new (&eph.unowned_bodies_indices_) decltype(eph.unowned_bodies_indices_)();
    new (&eph.geopotentials_) decltype(eph.geopotentials_)();
    new (&eph.trajectories_) decltype(eph.trajectories_)();
    for (int i = 0; i < oblate + spherical; ++i) {
      if (i < oblate) { new (b + i * sizeof(Oblate)) Oblate(in[8 * i], in[8 * i + 1]); } else { new (b + i * sizeof(Oblate)) Spherical(in[8 * i], in[8 * i + 1]); }
      eph.bodies_.emplace_back(std::unique_ptr<MassiveBody const>(body(i)));
      eph.bodies_indices_.emplace(body(i), i);
      eph.trajectories_.emplace_back((CT*)(in + 8 * i + 2));
    }
    in += 8 * (oblate + spherical);
    for (int i = oblate + spherical; i--;) { eph.unowned_bodies_.push_back(body(i)); eph.unowned_bodies_indices_.emplace(body(i), oblate + spherical - 1 - i); }
    for (int i = 0; i < oblate; ++i) { *(double const**)&((G*)g)[i].body_ = in + 12 * i; }
    auto& impl = eph.geopotentials_._M_impl;
    impl._M_start = (G*)g;
    impl._M_finish = impl._M_end_of_storage = (G*)g + oblate;
  }
  ~System() {}
};
template<typename T> static std::vector<T> all(std::vector<T> v) { return v; }
// So that the contents of the vectors are not forgotten.
static void form(double* out, JacobianOfAcceleration<W> const& f) {
  auto const a = f * v<Length>(std::array<double, 3>{1, 0, 0}.data()), b = f * v<Length>(std::array<double, 3>{0, 1, 0}.data()), c = f * v<Length>(std::array<double, 3>{0, 0, 1}.data());
  w(out, a); w(out + 3, b); w(out + 6, c);
}
'''


def total(x, vectors):
    r = [x(0)] * 3
    for v in vectors:
        r = x.add(r, v)
    return r


def ephemeris():
    wh = 'physics/ephemeris_body.hpp'
    obs = []
    # On a circle, so that their distances are rational.
    half = [(Fr(3, 5), Fr(4, 5)), (Fr(5, 13), Fr(-12, 13)), (Fr(-8, 17), Fr(15, 17)), (Fr(1), Fr(0)), (Fr(20, 29), Fr(21, 29)), (Fr(-28, 53), Fr(-45, 53))]
    axes = ([Fr(2, 3), Fr(-1, 3), Fr(2, 3)], [Fr(1, 3), Fr(-2, 3), Fr(-2, 3)])
    CENTRE = [Fr(1, 2), Fr(-3), Fr(2)]
    POINTS = [[o + 5 * ((c * c - s * s) * u + 2 * s * c * v) for o, u, v in zip(CENTRE, *axes)] for c, s in half]

    def distance(i, j):
        (a, b), (c, d) = half[i], half[j]
        return abs(10 * (b * c - a * d))

    class Bodies:
        def __init__(self, x, i, oblate, spherical):
            self.n, self.oblate = oblate + spherical, oblate
            self.mu = [i[1 + 8 * k] for k in range(self.n)]
            self.radius = [i[2 + 8 * k] for k in range(self.n)]
            self.q = [i[3 + 8 * k:6 + 8 * k] for k in range(self.n)]
            self.v = [i[6 + 8 * k:9 + 8 * k] for k in range(self.n)]
            self.k = [i[1 + 8 * self.n + 12 * k:13 + 8 * self.n + 12 * k] for k in range(oblate)]
            self.end = 1 + 8 * self.n + 12 * oblate
            self.x = x

        def field(self, b, r):
            "The acceleration due to body b, per unit of its gravitational parameter, at r from it."
            x = self.x
            n2 = x.dot(r, r)
            n = x.sqrt(n2)
            a = [-(c / (n2 * n)) for c in r]
            if b < self.oblate:
                k = self.k[b]
                a = x.add(a, [k[j] * n + k[3 + j] * n2 + k[6 + j] / (n2 * n) + k[9 + j] * r[j] for j in range(3)])
            return a

        def potential(self, b, r):
            x = self.x
            n2 = x.dot(r, r)
            n = x.sqrt(n2)
            a = -(x(1) / n)
            if b < self.oblate:
                k = self.k[b]
                h = [k[j] * n + k[3 + j] * n2 + k[6 + j] / (n2 * n) + k[9 + j] * r[j] for j in range(3)]
                a = a + h[0] + x(2) * h[1] + x(3) * h[2]
            return a

        def jerk(self, r, v):
            x = self.x
            n2 = x.dot(r, r)
            n = x.sqrt(n2)
            return [-(v[j] / (n2 * n)) + x(3) * x.dot(r, v) * r[j] / (n2 * n2 * n) for j in range(3)]

        def on(self, b1):
            "The acceleration of b1; by the third law, b1 recoils from the force it exerts because of its oblateness."
            x = self.x
            a = [x(0)] * 3
            for b2 in range(self.n):
                if b2 != b1:
                    d = x.sub(self.q[b1], self.q[b2])
                    a = x.add(a, x.mul(self.mu[b2], self.field(b2, d)))
                    if b1 < self.oblate:
                        spherical = [c / (x.dot(d, d) * x.sqrt(x.dot(d, d))) for c in d]
                        a = x.sub(a, x.mul(self.mu[b2], x.sub(self.field(b1, [-c for c in d]), spherical)))
            return a

        def point(self, p):
            x = self.x
            a = [x(0)] * 3
            for b in range(self.n):
                a = x.add(a, x.mul(self.mu[b], self.field(b, x.sub(p, self.q[b]))))
            return a

    def inputs(oblate, spherical, shift=0, extra=lambda x: [], concrete=True, radius=Fr(1, 100)):
        def f(x):
            n = oblate + spherical
            r = [x.var('t')]
            for k in range(n):
                r += [x.var('mu%d' % k) if k else x.var('mu0'), x(radius if not callable(radius) else radius(k))]
                r += [x(c) for c in POINTS[(k + shift) % 4]] if concrete else [x.var('q%d%s' % (k, c)) if k else x(CENTRE['xyz'.index(c)]) for c in 'xyz']
                r += [x.var('v%d%s' % (k, c)) for c in 'xyz']
            r += [x.var('k%d_%d' % (k, j)) for k in range(oblate) for j in range(12)]
            return r + list(extra(x))
        return f

    DECL = 'System e(in, %d, %d); Instant const t = Instant() + in[0] * Second; '
    for oblate, spherical in ((0, 1), (1, 0), (0, 2), (2, 0), (1, 1), (2, 2), (0, 3), (3, 0), (1, 2)):
        n = oblate + spherical
        for concrete in ([False, True] if n < 3 else [True]):
            positive = ['mu%d' % k for k in range(n)]
            name = '%d oblate %d spherical%s' % (oblate, spherical, '' if concrete else ' anywhere')
            decl = DECL % (oblate, spherical)
            base = 1 + 8 * n + 12 * oblate
            mk = lambda extra=lambda x: [], shift=0, oblate=oblate, spherical=spherical, concrete=concrete, **kw: inputs(oblate, spherical, shift, extra, concrete, **kw)
            B = lambda x, i, oblate=oblate, spherical=spherical: Bodies(x, i, oblate, spherical)
            positions = 'std::vector<Position<W>> p; for (int i = 0; i < %d; ++i) { p.push_back(x(in + 3 + 8 * i)); } ' % n
            dofs = 'std::vector<DegreesOfFreedom<W>> p; for (int i = 0; i < %d; ++i) { p.push_back(dof(in + 3 + 8 * i)); } ' % n
            obs.append(O('between all, ' + name, decl + positions + 'std::vector<Vector<Acceleration, W>> a(%d, v<Acceleration>(in + 1)); (void)e->E::ComputeGravitationalAccelerationBetweenAllMassiveBodies(t, p, a); for (int i = 0; i < %d; ++i) { w(out + 3 * i, a[i]); }' % (n, n),
                         mk(), lambda x, i, n=n, B=B: [c for k in range(n) for c in B(x, i).on(k)], positive=positive, where=wh))
            obs.append(O('on each, ' + name, decl + ''.join('w(out + %d, e->E::ComputeGravitationalAccelerationOnMassiveBody(e.body(%d), t)); ' % (3 * k, k) for k in range(n)),
                         mk(), lambda x, i, n=n, B=B: [c for k in range(n) for c in B(x, i).on(k)], positive=positive, where=wh))
            obs.append(O('on some, ' + name, decl + 'E::BodiesToPositions p; for (int i = %d; i--;) { p.emplace(e.body(i), x(in + 3 + 8 * i)); } ' % n + 'auto const a = e->E::ComputeGravitationalAccelerationOnMassiveBodies({e.body(%d), e.body(0)}, p, t); w(out, a[0]); w(out + 3, a[1]); out[6] = a.size();' % (n - 1),
                         mk(), lambda x, i, n=n, B=B: B(x, i).on(n - 1) + B(x, i).on(0) + [x(2)], positive=positive, where=wh))
            obs.append(O('jerk on each, ' + name, decl + ''.join('w(out + %d, e->E::ComputeGravitationalJerkOnMassiveBody(e.body(%d), t)); ' % (3 * k, k) for k in range(n)),
                         mk(), lambda x, i, n=n, B=B: [c for k in range(n) for c in total(x, [x.mul(B(x, i).mu[j], B(x, i).jerk(x.sub(B(x, i).q[k], B(x, i).q[j]), x.sub(B(x, i).v[k], B(x, i).v[j]))) for j in range(n) if j != k])], positive=positive, where=wh))
            obs.append(O('jerk on some, ' + name, decl + 'E::BodiesToDegreesOfFreedom p; for (int i = %d; i--;) { p.emplace(e.body(i), dof(in + 3 + 8 * i)); } ' % n + 'auto const a = e->E::ComputeGravitationalJerkOnMassiveBodies({e.body(%d), e.body(0)}, p); w(out, a[0]); w(out + 3, a[1]); out[6] = a.size();' % (n - 1),
                         mk(), lambda x, i, n=n, B=B: [c for k in (n - 1, 0) for c in total(x, [x.mul(B(x, i).mu[j], B(x, i).jerk(x.sub(B(x, i).q[k], B(x, i).q[j]), x.sub(B(x, i).v[k], B(x, i).v[j]))) for j in range(n) if j != k])] + [x(2)], positive=positive, where=wh))

            def jacobian(x, i, n=n, B=B):
                b = B(x, i)
                r = []
                for k in range(n):
                    for axis in ([x(1), x(0), x(0)], [x(0), x(1), x(0)], [x(0), x(0), x(1)]):
                        r += total(x, [x.mul(b.mu[j], b.jerk(x.sub(b.q[k], b.q[j]), axis)) for j in range(n) if j != k])
                return r
            obs.append(O('jacobian on each, ' + name, decl + ''.join('form(out + %d, e->E::ComputeJacobianOnMassiveBody(e.body(%d), t)); ' % (9 * k, k) for k in range(n)),
                         mk(), jacobian, positive=positive, where=wh))

            far = lambda x, concrete=concrete: [x(c) if concrete else x.var('pq'[k] + 'xyz'[j]) for k, p in enumerate(POINTS[4:]) for j, c in enumerate(p)] + [x.var('w' + c) for c in 'xyz']
            if concrete or n == 1:
                obs.append(O('on massless, ' + name, decl + 'w(out, e->E::ComputeGravitationalAccelerationOnMasslessBody(x(in + %d), t)); out[3] = s(e->E::ComputeGravitationalPotential(x(in + %d), t));' % (base, base + 3),
                             mk(far), lambda x, i, base=base, B=B: B(x, i).point(i[base:base + 3]) + [x.sum([B(x, i).mu[k] * B(x, i).potential(k, x.sub(i[base + 3:base + 6], B(x, i).q[k])) for k in range(B(x, i).n)])],
                             positive=positive, where=wh))
            if not concrete:
                continue
            obs.append(O('jerk on massless, ' + name, decl + 'w(out, e->E::ComputeGravitationalJerkOnMasslessBody({x(in + %d), v<Speed>(in + %d)}, t));' % (base, base + 6),
                         mk(far), lambda x, i, n=n, base=base, B=B: total(x, [x.mul(B(x, i).mu[j], B(x, i).jerk(x.sub(i[base:base + 3], B(x, i).q[j]), x.sub(i[base + 6:base + 9], B(x, i).v[j]))) for j in range(n)]), positive=positive, where=wh))
            many = decl + 'std::vector<Position<W>> p; p.push_back(x(in + %d)); p.push_back(x(in + %d)); ' % (base, base + 3)
            obs.append(O('on many massless, ' + name, many + 'std::vector<Vector<Acceleration, W>> a(2, v<Acceleration>(in + 1)); out[6] = (double)(int)e->E::ComputeGravitationalAccelerationByAllMassiveBodiesOnMasslessBodies(t, p, a); w(out, a[0]); w(out + 3, a[1]); '
                         'std::vector<SpecificEnergy> u(2, in[1] * Unit<SpecificEnergy>); e->E::ComputeGravitationalPotentialsOfAllMassiveBodies(t, p, u); out[7] = s(u[0]); out[8] = s(u[1]);',
                         mk(far), lambda x, i, base=base, B=B: B(x, i).point(i[base:base + 3]) + B(x, i).point(i[base + 3:base + 6]) + [x(0)] + [x.sum([B(x, i).mu[k] * B(x, i).potential(k, x.sub(i[j:j + 3], B(x, i).q[k])) for k in range(B(x, i).n)]) for j in (base, base + 3)],
                         positive=positive, where=wh))
            # One of the points is inside one of the bodies: a collision with any of them, by any of the points.
            for hit in range(n):
                for point in (0, 1):
                    for inside in (False, True):
                        # The tolerance is 0.99.
                        rad = lambda k, hit=hit, inside=inside, point=point: Fr(1, 100) if k != hit else distance(hit, 4 + point) / Fr(99, 100) * (1 + (Fr(1, 2000) if inside else -Fr(1, 2000)))
                        obs.append(O('collision of %d with %d%s, %s' % (point, hit, ' inside' * inside, name), many + 'std::vector<Vector<Acceleration, W>> a(2); out[0] = (double)(int)e->E::ComputeGravitationalAccelerationByAllMassiveBodiesOnMasslessBodies(t, p, a);',
                                     mk(far, radius=rad), lambda x, i, inside=inside, hit=hit, point=point: [x(11 if inside or distance(hit, 5 - point) < distance(hit, 4 + point) else 0)], positive=positive, where=wh))
    return obs


def main(c):
    gs = {}
    for v, extra in VARIANTS.items():
        gs[('geopotential ' + v).strip()] = (PRELUDE, geopotential(), tuple(extra) + ('-fno-access-control',))
        gs[('ephemeris ' + v).strip()] = (EPHEMERIS, ephemeris(), tuple(extra) + ('-fno-access-control',))
    run(c, gs)


if __name__ == '__main__':
    vlib.main(main, 'C16', 'other', RULE)
