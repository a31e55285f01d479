#!/usr/bin/env python3
"""C12: the geometric algebra computes what it means."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
from algebra import Obligation as O, flat, run
from irval import Unsupported
from fractions import Fraction as Fr

RULE = ('Each geometric operation, compiled to LLVM IR and abstracted to rational functions of its inputs (rounding '
        'ignored), equals its definition as a rational function; this covers all inputs at once, and both the '
        'intrinsic and the portable code.')

PRELUDE = '''
#include "geometry/barycentre_calculator.hpp"
#include "geometry/complexification.hpp"
#include "geometry/conformal_map.hpp"
#include "geometry/direct_sum.hpp"
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/hilbert.hpp"
#include "geometry/homothecy.hpp"
#include "geometry/identity.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/permutation.hpp"
#include "geometry/plane.hpp"
#include "geometry/point.hpp"
#include "geometry/quaternion.hpp"
#include "geometry/r3_element.hpp"
#include "geometry/r3x3_matrix.hpp"
#include "geometry/rotation.hpp"
#include "geometry/rp2_point.hpp"
#include "geometry/sign.hpp"
#include "geometry/signature.hpp"
#include "geometry/symmetric_bilinear_form.hpp"
#include "quantities/si.hpp"
using namespace principia::geometry::_barycentre_calculator;
using namespace principia::geometry::_complexification;
using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_direct_sum;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_hilbert;
using namespace principia::geometry::_homothecy;
using namespace principia::geometry::_identity;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_permutation;
using namespace principia::geometry::_plane;
using namespace principia::geometry::_point;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_r3x3_matrix;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_rp2_point;
using namespace principia::geometry::_sign;
using namespace principia::geometry::_signature;
using namespace principia::geometry::_symmetric_bilinear_form;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using F = Frame<struct FT, Inertial>;
using G = Frame<struct GT, Inertial>;
using H = Frame<struct HT, Inertial>;
using L = Frame<struct LT, Inertial, Handedness::Left>;
using M = Frame<struct MT, Inertial, Handedness::Left>;
using Vec = Vector<double, F>;
using Biv = Bivector<double, F>;
using Tri = Trivector<double, F>;
static R3Element<double> r(const double* p) { return R3Element<double>(p[0], p[1], p[2]); }
static void w(double* p, R3Element<double> const& v) { p[0] = v.x; p[1] = v.y; p[2] = v.z; }
static Quaternion q(const double* p) { return Quaternion(p[0], r(p + 1)); }
static void w(double* p, Quaternion const& v) { p[0] = v.real_part(); w(p + 1, v.imaginary_part()); }
template<typename Fr = F> static Vector<double, Fr> v(const double* p) { return Vector<double, Fr>(r(p)); }
template<typename Fr = F> static Bivector<double, Fr> b(const double* p) { return Bivector<double, Fr>(r(p)); }
template<typename Fr = F> static Trivector<double, Fr> t(const double* p) { return Trivector<double, Fr>(p[0]); }
template<typename Fr> static void w(double* p, Vector<double, Fr> const& x) { w(p, x.coordinates()); }
template<typename Fr> static void w(double* p, Bivector<double, Fr> const& x) { w(p, x.coordinates()); }
template<typename Fr> static void w(double* p, Trivector<double, Fr> const& x) { p[0] = x.coordinates(); }
static R3x3Matrix<double> m(const double* p) { return R3x3Matrix<double>(r(p), r(p + 3), r(p + 6)); }
static void w(double* p, R3x3Matrix<double> const& x) { w(p, x.row_x()); w(p + 3, x.row_y()); w(p + 6, x.row_z()); }
static R3x3Matrix<double> s(const double* p) {
  return R3x3Matrix<double>({p[0], p[1], p[2]}, {p[1], p[3], p[4]}, {p[2], p[4], p[5]});
}
template<template<typename, typename> typename X, typename Fr = F>
static SymmetricBilinearForm<double, Fr, X> f(const double* p) { return SymmetricBilinearForm<double, Fr, X>(s(p)); }
template<typename Fr, template<typename, typename> typename X>
static void w(double* p, SymmetricBilinearForm<double, Fr, X> const& x) { w(p, x.coordinates()); }
template<typename A, typename B>
static void images(double* p, Rotation<A, B> const& x) {
  w(p, x(Vector<double, A>({1, 0, 0}))); w(p + 3, x(Vector<double, A>({0, 1, 0}))); w(p + 6, x(Vector<double, A>({0, 0, 1})));
}
using C = Complexification<double>;
static C c(const double* p) { return C(p[0], p[1]); }
static void w(double* p, C const& x) { p[0] = x.real_part(); p[1] = x.imaginary_part(); }
'''


def v3(i, k=0):
    return list(i[k:k + 3])


def m3(i, k=0):
    return [v3(i, k), v3(i, k + 3), v3(i, k + 6)]


def sym(i, k=0):
    a = i[k:k + 6]
    return [[a[0], a[1], a[2]], [a[1], a[3], a[4]], [a[2], a[4], a[5]]]


def grassmann():
    obs = []

    def o(name, n, body, spec, **kw):
        obs.append(O(name, body, n, spec, where='geometry/grassmann_body.hpp', **kw))
    for kind, n in (('r', 3), ('v', 3), ('b', 3), ('t', 1)):
        wh = {'r': 'R3Element', 'v': 'Vector', 'b': 'Bivector', 't': 'Trivector'}[kind]

        def get(k, kind=kind):
            return '%s(in + %d)' % (kind, k)
        o(wh + ' +', 2 * n, 'w(out, %s + %s);' % (get(0), get(n)), lambda x, i, n=n: x.add(i[:n], i[n:2 * n]))
        o(wh + ' -', 2 * n, 'w(out, %s - %s);' % (get(0), get(n)), lambda x, i, n=n: x.sub(i[:n], i[n:2 * n]))
        o(wh + ' unary -', n, 'w(out, -%s);' % get(0), lambda x, i, n=n: x.neg(i[:n]))
        o(wh + ' unary +', n, 'w(out, +%s);' % get(0), lambda x, i, n=n: i[:n])
        o(wh + ' left *', n + 1, 'w(out, in[%d] * %s);' % (n, get(0)), lambda x, i, n=n: x.mul(i[n], i[:n]))
        o(wh + ' right *', n + 1, 'w(out, %s * in[%d]);' % (get(0), n), lambda x, i, n=n: x.mul(i[n], i[:n]))
        o(wh + ' /', n + 1, 'w(out, %s / in[%d]);' % (get(0), n), lambda x, i, n=n: x.div(i[:n], i[n]))
        o(wh + ' assignments', 2 * n + 1,
          'auto a = %s; a += %s; w(out, a); auto b1 = %s; b1 -= %s; w(out + 3, b1);'
          'auto c1 = %s; c1 *= in[%d]; w(out + 6, c1); auto d = %s; d /= in[%d]; w(out + 9, d);'
          % (get(0), get(n), get(0), get(n), get(0), 2 * n, get(0), 2 * n),
          lambda x, i, n=n: flat([y + [None] * (3 - n) for y in (
              x.add(i[:n], i[n:2 * n]), x.sub(i[:n], i[n:2 * n]), x.mul(i[2 * n], i[:n]), x.div(i[:n], i[2 * n]))]))
        if n == 3:
            o(wh + ' Norm', 3, 'out[0] = %s.Norm(); out[1] = %s.Norm²();' % (get(0), get(0)),
              lambda x, i: [x.sqrt(x.dot(i, i)), x.dot(i, i)])
            o(wh + ' Normalize', 3, 'w(out, Normalize(%s));' % get(0), lambda x, i: x.div(v3(i), x.sqrt(x.dot(i, i))))

            def normalize_or_zero(x, i, conds):
                z = x.dot(i, i)
                for cd, r in conds:
                    if cd.op == 'eq' and r:
                        return [0, 0, 0]
                return x.div(v3(i), x.sqrt(z))
            o(wh + ' NormalizeOrZero', 3, 'w(out, NormalizeOrZero(%s));' % get(0), normalize_or_zero)
            # (v - (v.u / u.u) u), a multiple of which by 1.
            o(wh + ' OrthogonalizationAgainst', 6, 'w(out, %s.OrthogonalizationAgainst(%s));' % (get(0), get(3)),
              lambda x, i: x.sub(v3(i), x.mul(x.dot(v3(i), v3(i, 3)) / x.dot(v3(i, 3), v3(i, 3)), v3(i, 3))))
    for kind, n in (('v', 3), ('b', 3), ('t', 1)):
        wh = {'v': 'Vector', 'b': 'Bivector', 't': 'Trivector'}[kind]
        o('InnerProduct ' + wh, 2 * n, 'out[0] = InnerProduct(%s(in), %s(in + %d));' % (kind, kind, n),
          lambda x, i, n=n: [x.dot(i[:n], i[n:])])
        for fma, sg in (('FusedMultiplyAdd', (1, 1)), ('FusedMultiplySubtract', (1, -1)),
                        ('FusedNegatedMultiplyAdd', (-1, 1)), ('FusedNegatedMultiplySubtract', (-1, -1))):
            o('%s %s right' % (fma, wh), 2 * n + 1, 'w(out, %s(%s(in), in[%d], %s(in + %d)));' % (fma, kind, n, kind, n + 1),
              lambda x, i, n=n, sg=sg: x.add(x.mul(sg[0], x.mul(i[n], i[:n])), x.mul(sg[1], i[n + 1:])))
            o('%s %s left' % (fma, wh), 2 * n + 1, 'w(out, %s(in[%d], %s(in), %s(in + %d)));' % (fma, n, kind, kind, n + 1),
              lambda x, i, n=n, sg=sg: x.add(x.mul(sg[0], x.mul(i[n], i[:n])), x.mul(sg[1], i[n + 1:])))
    o('Trivector Norm', 1, 'out[0] = t(in).Norm²();', lambda x, i: [i[0] * i[0]])
    cr = lambda x, i: x.cross(v3(i), v3(i, 3))
    o('Cross', 6, 'w(out, Cross(r(in), r(in + 3)));', cr)
    o('Dot', 6, 'out[0] = Dot(r(in), r(in + 3));', lambda x, i: [x.dot(v3(i), v3(i, 3))])
    o('Wedge of vectors', 6, 'w(out, Wedge(v(in), v(in + 3)));', cr)
    o('Commutator', 6, 'w(out, Commutator(b(in), b(in + 3)));', cr)
    o('left action', 6, 'w(out, b(in) * v(in + 3));', cr)
    o('right action', 6, 'w(out, v(in) * b(in + 3));', cr)
    o('Wedge of a bivector and a vector', 6, 'w(out, Wedge(b(in), v(in + 3)));', lambda x, i: [x.dot(v3(i), v3(i, 3))])
    o('Wedge of a vector and a bivector', 6, 'w(out, Wedge(v(in), b(in + 3)));', lambda x, i: [x.dot(v3(i), v3(i, 3))])
    o('Bivector Trivector', 4, 'w(out, b(in) * t(in + 3));', lambda x, i: x.mul(i[3], v3(i)))
    o('Trivector Bivector', 4, 'w(out, t(in + 3) * b(in));', lambda x, i: x.mul(i[3], v3(i)))
    o('Vector Trivector', 4, 'w(out, v(in) * t(in + 3));', lambda x, i: x.mul(i[3], v3(i)))
    o('Trivector Vector', 4, 'w(out, t(in + 3) * v(in));', lambda x, i: x.mul(i[3], v3(i)))
    o('index', 3, 'auto const a = r(in); out[0] = a[0]; out[1] = a[1]; out[2] = a[2];', lambda x, i: v3(i))
    o('spherical', 3, 'auto const a = r(in).ToSpherical(); out[0] = a.radius; out[1] = a.longitude / Radian; out[2] = a.latitude / Radian;',
      lambda x, i: [x.sqrt(x.dot(i, i)), x.atom('atan2', i[1], i[0]), x.atom('asin', i[2] / x.sqrt(x.dot(i, i)))])
    ang = lambda x, a, b: x.atom('acos', x.dot(a, b) / x.sqrt(x.dot(a, a)) / x.sqrt(x.dot(b, b)))
    for kind in 'vb':
        o('AngleBetween ' + kind, 6, 'out[0] = AngleBetween(%s(in), %s(in + 3)) / Radian;' % (kind, kind), lambda x, i: [ang(x, v3(i), v3(i, 3))])

        def oriented(x, i, conds):
            # The sign is that of the triple product.
            tp = x.dot(x.cross(v3(i), v3(i, 3)), v3(i, 6))
            return [ang(x, v3(i), v3(i, 3)) * (x.atom('abs', tp) / tp)]
        o('OrientedAngleBetween ' + kind, 9, 'out[0] = OrientedAngleBetween(%s(in), %s(in + 3), b(in + 6)) / Radian;' % (kind, kind), oriented)
    o('OrientedAngleBetween, anticommutative', 9, 'out[0] = (OrientedAngleBetween(v(in), v(in + 3), b(in + 6)) + OrientedAngleBetween(v(in + 3), v(in), b(in + 6))) / Radian;',
      lambda x, i: [0])
    o('cartesian', 3,
      'SphericalCoordinates<double> a; a.radius = in[0]; a.latitude = in[1] * Radian; a.longitude = in[2] * Radian;'
      'w(out, a.ToCartesian());',
      lambda x, i: [i[0] * x.atom('cos', i[1]) * x.atom('cos', i[2]), i[0] * x.atom('cos', i[1]) * x.atom('sin', i[2]),
                    i[0] * x.atom('sin', i[1])])
    return obs


EULER = ['ZXZ', 'XYX', 'YZY', 'ZYZ', 'XZX', 'YXY']
CARDANO = ['XYZ', 'YZX', 'ZXY', 'XZY', 'ZYX', 'YXZ']


def axis_rotation(x, axis, cos, sin):
    """The matrix of the active rotation about a coordinate axis."""
    a = 'XYZ'.index(axis)
    b, c = (a + 1) % 3, (a + 2) % 3
    m = x.eye(3)
    m[b][b], m[c][c], m[b][c], m[c][b] = cos, cos, -sin, sin
    return m


def double_angle(x, i, k):
    """cos and sin of the input k, from the functions of half of it."""
    half = x(i[k]) / x(2)
    c, s = x.atom('cos', half), x.atom('sin', half)
    one_rule(x, half)
    return c * c - s * s, x(2) * s * c


def one_rule(x, a):
    from poly import Poly
    c, s = x.dom.atom('cos', a), x.dom.atom('sin', a)
    x.dom.rules[c] = (2, Poly.const(1) - Poly.var(s) * Poly.var(s))


def rules_angles(*ks):
    def f(x, i):
        for k in ks:
            one_rule(x, x(i[k]) / x(2))
    return f


def cols(m):
    """The images of the basis, for a matrix."""
    return flat([list(c) for c in zip(*m)])


def sandwich(_):
    """The images of the basis by the rotation by a unit quaternion q0..q3."""
    def f(x):
        from poly import Poly
        qs = [x.var('q%d' % k) for k in range(4)]
        x.dom.rules['q0'] = (2, Poly.const(1) - Poly.var('q1') * Poly.var('q1') - Poly.var('q2') * Poly.var('q2') - Poly.var('q3') * Poly.var('q3'))
        return flat(x.transpose(x.rotation_matrix(qs)))
    return f


def quaternions():
    obs = []

    def o(name, n, body, spec, **kw):
        obs.append(O(name, body, n, spec, where='geometry/quaternion_body.hpp', **kw))
    q2 = lambda i, k=0: list(i[k:k + 4])
    n2 = lambda x, a: x.dot(a, a)
    o('Quaternion +', 8, 'w(out, q(in) + q(in + 4));', lambda x, i: x.add(q2(i), q2(i, 4)))
    o('Quaternion -', 8, 'w(out, q(in) - q(in + 4));', lambda x, i: x.sub(q2(i), q2(i, 4)))
    o('Quaternion unary', 4, 'w(out, -q(in)); w(out + 4, +q(in));', lambda x, i: x.neg(q2(i)) + q2(i))
    o('Quaternion *', 8, 'w(out, q(in) * q(in + 4));', lambda x, i: x.qmul(q2(i), q2(i, 4)))
    o('Quaternion /', 8, 'w(out, q(in) / q(in + 4));',
      lambda x, i: x.div(x.qmul(q2(i), x.conj(q2(i, 4))), n2(x, q2(i, 4))))
    o('Quaternion scalar', 5, 'w(out, in[4] * q(in)); w(out + 4, q(in) * in[4]); w(out + 8, q(in) / in[4]);',
      lambda x, i: x.mul(i[4], q2(i)) + x.mul(i[4], q2(i)) + x.div(q2(i), i[4]))
    o('Quaternion assignments', 9,
      'auto a = q(in); a += q(in + 4); w(out, a); auto b1 = q(in); b1 -= q(in + 4); w(out + 4, b1);'
      'auto c1 = q(in); c1 *= q(in + 4); w(out + 8, c1); auto d = q(in); d /= q(in + 4); w(out + 12, d);'
      'auto e = q(in); e *= in[8]; w(out + 16, e); auto g = q(in); g /= in[8]; w(out + 20, g);',
      lambda x, i: flat([x.add(q2(i), q2(i, 4)), x.sub(q2(i), q2(i, 4)), x.qmul(q2(i), q2(i, 4)),
                         x.div(x.qmul(q2(i), x.conj(q2(i, 4))), n2(x, q2(i, 4))), x.mul(i[8], q2(i)), x.div(q2(i), i[8])]))
    o('Quaternion norm', 4, 'out[0] = q(in).Norm(); out[1] = q(in).Norm²(); w(out + 2, q(in).Conjugate());'
      'w(out + 6, q(in).Inverse()); w(out + 10, Normalize(q(in)));',
      lambda x, i: flat([x.sqrt(n2(x, i)), n2(x, i), x.conj(q2(i)), x.div(x.conj(q2(i)), n2(x, i)), x.div(q2(i), x.sqrt(n2(x, i)))]))
    return obs


def qr_inputs(x):
    q = m3(sandwich('q')(x))
    r = [x.var('r%d' % k) for k in range(6)]
    u = [[r[0], r[1], r[2]], [x(0), r[3], r[4]], [x(0), x(0), r[5]]]
    return flat(x.matmul(x.transpose(q), u))


def matrices():
    obs = []

    def o(name, n, body, spec, **kw):
        obs.append(O(name, body, n, spec, where='geometry/r3x3_matrix_body.hpp', **kw))
    o('Matrix +', 18, 'w(out, m(in) + m(in + 9));', lambda x, i: x.add(m3(i), m3(i, 9)))
    o('Matrix -', 18, 'w(out, m(in) - m(in + 9));', lambda x, i: x.sub(m3(i), m3(i, 9)))
    o('Matrix unary', 9, 'w(out, -m(in)); w(out + 9, +m(in));', lambda x, i: [x.neg(m3(i)), m3(i)])
    o('Matrix *', 18, 'w(out, m(in) * m(in + 9));', lambda x, i: x.matmul(m3(i), m3(i, 9)))
    o('Matrix vector', 12, 'w(out, m(in) * r(in + 9));', lambda x, i: x.matvec(m3(i), v3(i, 9)))
    o('vector Matrix', 12, 'w(out, r(in + 9) * m(in));', lambda x, i: x.matvec(x.transpose(m3(i)), v3(i, 9)))
    o('Matrix scalar', 10, 'w(out, m(in) * in[9]); w(out + 9, in[9] * m(in)); w(out + 18, m(in) / in[9]);',
      lambda x, i: [x.mul(i[9], m3(i)), x.mul(i[9], m3(i)), x.div(m3(i), i[9])])
    o('Matrix assignments', 19,
      'auto a = m(in); a += m(in + 9); w(out, a); auto b1 = m(in); b1 -= m(in + 9); w(out + 9, b1);'
      'auto c1 = m(in); c1 *= m(in + 9); w(out + 18, c1); auto d = m(in); d *= in[18]; w(out + 27, d);'
      'auto e = m(in); e /= in[18]; w(out + 36, e);',
      lambda x, i: [x.add(m3(i), m3(i, 9)), x.sub(m3(i), m3(i, 9)), x.matmul(m3(i), m3(i, 9)), x.mul(i[18], m3(i)), x.div(m3(i), i[18])])
    o('Matrix invariants', 9, 'out[0] = m(in).Trace(); out[1] = m(in).Determinant(); w(out + 2, m(in).Transpose());'
      'w(out + 11, m(in).Diagonal()); out[14] = m(in).FrobeniusNorm();',
      lambda x, i: [x.sum([i[0], i[4], i[8]]), x.det(m3(i)), x.transpose(m3(i)), [i[0], i[4], i[8]], x.sqrt(x.dot(i, i))])
    o('Matrix makers', 3, 'w(out, R3x3Matrix<double>::DiagonalMatrix(r(in))); w(out + 9, R3x3Matrix<double>::Identity());',
      lambda x, i: [[i[0], 0, 0], [0, i[1], 0], [0, 0, i[2]], x.eye(3)])
    o('KroneckerProduct', 6, 'w(out, KroneckerProduct(r(in), r(in + 3)));',
      lambda x, i: [[i[a] * i[3 + b] for b in range(3)] for a in range(3)])
    o('Matrix access', 9, 'auto a = m(in); int k = 0; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { out[k++] = a(i, j); } }',
      lambda x, i: list(i[:9]))
    o('Matrix update', 9, 'R3x3Matrix<double> a; int k = 0; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { a(i, j) = in[k++]; } } w(out, a);',
      lambda x, i: list(i[:9]))
    # A x = b, whatever the pivoting.
    obs.append(O('Matrix Solve', 'w(out, m(in).Solve(r(in + 9)));', 12, nout=3, where='geometry/r3x3_matrix_body.hpp',
                 relation=lambda x, i, out: [(x.matvec(m3(i), out), v3(i, 9))], abs_atoms=True))
    obs.append(O('Matrix Solve divisors', 'w(out, m(in).Solve(r(in + 9)));', 12, nout=3, where='geometry/r3x3_matrix_body.hpp',
                 relation=lambda x, i, out: [], abs_atoms=True, guarded=True))
    # Q R = A, with Q orthogonal and R upper triangular.
    # All nonsingular matrices whose determinant is positive are Q R with a diagonal of R which is positive.
    obs.append(O('Matrix QRDecomposition', 'R3x3Matrix<double> Q, R; m(in).QRDecomposition(Q, R); w(out, Q); w(out + 9, R);',
                 qr_inputs, nout=18, where='geometry/r3x3_matrix_body.hpp', positive=('r0', 'r3', 'r5'),
                 relation=lambda x, i, out: [(x.matmul(m3(out), m3(out, 9)), m3(i)),
                                             (out[9:12] + out[13:15] + [out[17]], [x.var('r%d' % k) for k in range(6)]),
                                             (x.matmul(x.transpose(m3(out)), m3(out)), x.eye(3))]))
    return obs


def forms():
    obs = []

    def o(name, n, body, spec, **kw):
        obs.append(O(name, body, n, spec, where='geometry/symmetric_bilinear_form_body.hpp', **kw))
    for k, g in (('Vector', 'v'), ('Bivector', 'b')):
        a, b2 = 'f<%s>(in)' % k, 'f<%s>(in + 6)' % k
        o('form on %ss: + -' % k, 12, 'w(out, %s + %s); w(out + 9, %s - %s); w(out + 18, -%s); w(out + 27, +%s);' % (a, b2, a, b2, a, a),
          lambda x, i: [x.add(sym(i), sym(i, 6)), x.sub(sym(i), sym(i, 6)), x.neg(sym(i)), sym(i)])
        o('form on %ss: scalar' % k, 7, 'w(out, %s * in[6]); w(out + 9, in[6] * %s); w(out + 18, %s / in[6]);' % (a, a, a),
          lambda x, i: [x.mul(i[6], sym(i)), x.mul(i[6], sym(i)), x.div(sym(i), i[6])])
        o('form on %ss: assignments' % k, 13,
          'auto p = %s; p += %s; w(out, p); auto n = %s; n -= %s; w(out + 9, n); auto k = %s; k *= in[12]; w(out + 18, k);'
          'auto d = %s; d /= in[12]; w(out + 27, d);' % (a, b2, a, b2, a, a),
          lambda x, i: [x.add(sym(i), sym(i, 6)), x.sub(sym(i), sym(i, 6)), x.mul(i[12], sym(i)), x.div(sym(i), i[12])])
        o('form on %ss: evaluation' % k, 12, 'out[0] = %s(%s(in + 6), %s(in + 9));' % (a, g, g),
          lambda x, i: [x.dot(v3(i, 6), x.matvec(sym(i), v3(i, 9)))])
        o('form on %ss: products' % k, 9, 'w(out, %s * %s(in + 6)); w(out + 3, %s(in + 6) * %s);' % (a, g, g, a),
          lambda x, i: [x.matvec(sym(i), v3(i, 6))] * 2)
        obs.append(O('form on %ss: /' % k, 'w(out, %s(in + 6) / %s);' % (g, a), 9, nout=3, where='geometry/symmetric_bilinear_form_body.hpp',
                     relation=lambda x, i, out: [(x.matvec(sym(i), out), v3(i, 6))], abs_atoms=True))
        o('form on %ss: InnerProductForm' % k, 1, 'w(out, InnerProductForm<F, %s>());' % k, lambda x, i: x.eye(3))

    def tr(x, i):
        return x.sum([i[0], i[3], i[5]])
    # F.Anticommutator() * (v ^ w) = (F * v) ^ w + v ^ (F * w).
    o('form: Anticommutator', 6, 'w(out, f<Vector>(in).Anticommutator());', lambda x, i: x.sub(x.mul(tr(x, i), x.eye(3)), sym(i)))
    o('form: AnticommutatorInverse', 6, 'w(out, f<Vector>(in).Anticommutator().AnticommutatorInverse());', lambda x, i: sym(i))
    o('form: AnticommutatorInverse direct', 6, 'w(out, f<Bivector>(in).AnticommutatorInverse());',
      lambda x, i: x.sub(x.mul(tr(x, i) / x(2), x.eye(3)), sym(i)))
    o('form: Anticommutator on a wedge', 12, 'w(out, Anticommutator(f<Vector>(in), Wedge(v(in + 6), v(in + 9))));',
      lambda x, i: x.add(x.cross(x.matvec(sym(i), v3(i, 6)), v3(i, 9)), x.cross(v3(i, 6), x.matvec(sym(i), v3(i, 9)))))
    sp = lambda x, a, b: [[(a[p] * b[q] + b[p] * a[q]) / x(2) for q in range(3)] for p in range(3)]
    o('form: SymmetricProduct', 6, 'w(out, SymmetricProduct(v(in), v(in + 3)));', lambda x, i: sp(x, v3(i), v3(i, 3)))
    o('form: SymmetricSquare', 3, 'w(out, SymmetricSquare(v(in)));', lambda x, i: sp(x, v3(i), v3(i)))
    return obs


def maps():
    obs = []

    def o(name, n, body, spec, where='rotation', **kw):
        obs.append(O(name, body, n, spec, where='geometry/%s_body.hpp' % where, **kw))
    q2 = lambda i, k=0: list(i[k:k + 4])
    rot = 'Rotation<F, G>(q(in))'
    back = lambda x, q, v: x.rotate(x.conj(q), v)
    o('Rotation of a vector', 7, 'w(out, %s(v(in + 4)));' % rot, lambda x, i: x.rotate(q2(i), v3(i, 4)), units=[0])
    o('Rotation of a bivector', 7, 'w(out, %s(b(in + 4)));' % rot, lambda x, i: x.rotate(q2(i), v3(i, 4)), units=[0])
    o('Rotation of a trivector', 5, 'w(out, %s(t(in + 4)));' % rot, lambda x, i: [i[4]], units=[0])

    def conj_form(x, m, f):
        return x.matmul(x.matmul(m, f), x.transpose(m))
    o('Rotation of a form', 10, 'w(out, %s(f<Vector>(in + 4)));' % rot,
      lambda x, i: conj_form(x, x.rotation_matrix(q2(i)), sym(i, 4)), units=[0])
    o('Rotation inverse', 7, 'w(out, %s.Inverse()(v<G>(in + 4)));' % rot, lambda x, i: back(x, q2(i), v3(i, 4)), units=[0])
    o('Rotation composition', 11, 'w(out, (Rotation<G, H>(q(in)) * Rotation<F, G>(q(in + 4)))(v(in + 8)));',
      lambda x, i: x.rotate(q2(i), x.rotate(q2(i, 4), v3(i, 8))), units=[0, 4])
    o('Rotation identity', 3, 'w(out, Rotation<F, F>::Identity()(v(in)));', lambda x, i: v3(i))
    o('Rotation determinant', 4, 'out[0] = %s.Determinant() * 1.0;' % rot, lambda x, i: [1], units=[0])
    # From bases.
    for a, b_, c_ in (('v', 'v', 'b'), ('v', 'b', 'v'), ('b', 'v', 'v'), ('b', 'b', 'b')):
        k = a + b_ + c_
        o('Rotation from the axes of the target %s' % k, sandwich('q'), 'images(out, Rotation<F, G>(%s(in), %s(in + 3), %s(in + 6)).Inverse());' % (a, b_, c_),
          lambda x, i: flat(i), assume=lambda x, cd: None)
        o('Rotation from the axes of the source %s' % k, sandwich('q'),
          'images(out, Rotation<F, G>(%s<G>(in), %s<G>(in + 3), %s<G>(in + 6)));' % (a, b_, c_), lambda x, i: flat(i))

    # About an axis: Rodrigues.
    def rodrigues(x, i, sign=1):
        c, s = double_angle(x, i, 0)
        ax = v3(i, 1)
        n = x.sqrt(x.dot(ax, ax))
        u = x.div(ax, n)
        out = []
        for e in x.eye(3):
            out += x.add(x.add(x.mul(c, e), x.mul(s * x(sign), x.cross(u, e))), x.mul(x.dot(u, e) * (x(1) - c), u))
        return out
    ra = rules_angles(0)
    o('Rotation about an axis', 4, 'images(out, Rotation<F, F>(in[0] * Radian, b(in + 1)));', rodrigues, rules=ra)
    # Passive: the coordinates in the new frame turn the other way.
    o('passive Rotation from to', 4, 'images(out, Rotation<F, G>(in[0] * Radian, b(in + 1), DefinesFrame<G>{}));',
      lambda x, i: rodrigues(x, i, -1), rules=ra)
    o('passive Rotation defining the source', 4, 'images(out, Rotation<F, G>(in[0] * Radian, b<G>(in + 1), DefinesFrame<F>{}));',
      lambda x, i: rodrigues(x, i, 1), rules=ra)

    def exp(x, i, conds):
        if any(cd.op == 'eq' and r for cd, r in conds):
            return x.eye(3)
        n = x.sqrt(x.dot(i, i))
        half = n / x(2)
        c, s = x.atom('cos', half), x.atom('sin', half)
        cc, ss = c * c - s * s, x(2) * s * c
        u = x.div(list(i), n)
        out = []
        for e in x.eye(3):
            out += x.add(x.add(x.mul(cc, e), x.mul(ss, x.cross(u, e))), x.mul(x.dot(u, e) * (x(1) - cc), u))
        return out

    def exp_rule(x, i):
        one_rule(x, x.sqrt(x.dot(i, i)) / x(2))
    o('Exp', 3, 'Bivector<Angle, F> e({in[0] * Radian, in[1] * Radian, in[2] * Radian}); images(out, Exp(e));', exp, rules=exp_rule)

    # Three angles: the axes of the defined frame, as matrices: R = R1(alpha) R2(beta) R3(gamma) sends the basis of
    # the reference on that of the defined frame, and maps the coordinates in the defined frame to those in the reference.
    def three(seq, inverse):
        def f(x, i):
            m = x.eye(3)
            for k, a in enumerate(seq):
                c, s = double_angle(x, i, k)
                m = x.matmul(m, axis_rotation(x, a, c, s))
            return cols(x.transpose(m) if inverse else m)
        return f
    for kind, seqs in (('EulerAngles', EULER), ('CardanoAngles', CARDANO)):
        for seq in seqs:
            args = 'in[0] * Radian, in[1] * Radian, in[2] * Radian, %s::%s' % (kind, seq)
            o('%s %s defining the target' % (kind, seq), 3, 'images(out, Rotation<F, G>(%s, DefinesFrame<G>{}));' % args,
              three(seq, True), rules=rules_angles(0, 1, 2))
            o('%s %s defining the source' % (kind, seq), 3, 'images(out, Rotation<F, G>(%s, DefinesFrame<F>{}));' % args,
              three(seq, False), rules=rules_angles(0, 1, 2))

    # Signatures, permutations, and the maps which they and the rotations make.
    P = {'+': 'Sign::Positive()', '-': 'Sign::Negative()'}
    for sg in ('++', '+-', '-+', '--'):
        p = 1 if sg[0] == sg[1] else -1
        s2 = [1 if c_ == '+' else -1 for c_ in sg]
        for to, det in (('G', 1), ('L', -1)):
            for pos in range(3):
                args = [P[sg[0]], P[sg[1]]]
                signs = list(s2)
                args.insert(pos, 'DeduceSignPreservingOrientation{}' if det == 1 else 'DeduceSignReversingOrientation{}')
                signs.insert(pos, p * det)
                e = 'Signature<F, %s>(%s)' % (to, ', '.join(args))
                act = lambda x, a, signs=signs: [x(s_) * y for s_, y in zip(signs, a)]
                o('Signature %s%s%d' % (sg, to, pos), 6,
                  'auto const g = %s; w(out, g(v(in))); w(out + 3, g(b(in))); w(out + 6, g(t(in))); w(out + 7, g.Inverse()(v<%s>(in)));'
                  'w(out + 10, g(f<Vector>(in))); out[19] = g.Determinant() * 1.0;'
                  'auto const h = g.Forget<OrthogonalMap>(); w(out + 20, h(v(in))); w(out + 23, h(b(in))); w(out + 26, h(t(in)));'
                  'w(out + 27, (g.Inverse() * g)(v(in)));' % (e, to),
                  lambda x, i, act=act, det=det, signs=signs: [
                      act(x, v3(i)), x.mul(det, act(x, v3(i))), x(det) * i[0], act(x, v3(i)),
                      [[x(signs[a] * signs[b_]) * y for b_, y in enumerate(row)] for a, row in enumerate(sym(i))], x(det),
                      act(x, v3(i)), x.mul(det, act(x, v3(i))), x(det) * i[0], v3(i)], where='signature')
    o('Signature central inversion', 3, 'w(out, Signature<F, L>::CentralInversion()(v(in))); w(out + 3, Signature<F, G>::Identity()(v(in)));',
      lambda x, i: [x.neg(v3(i)), v3(i)], where='signature')
    perms = {'XYZ': 1, 'YZX': 1, 'ZXY': 1, 'XZY': -1, 'ZYX': -1, 'YXZ': -1}
    for n, det in perms.items():
        to = 'G' if det == 1 else 'L'
        e = 'Permutation<F, %s>(%s::%s)' % (to, 'EvenPermutation' if det == 1 else 'OddPermutation', n)

        def act(x, a, n=n):
            return [a['XYZ'.index(ch)] for ch in n]

        def inv(x, a, n=n):
            return [a[n.index(ch)] for ch in 'XYZ']
        o('Permutation ' + n, 6,
          'auto const g = %s; w(out, g(v(in))); w(out + 3, g(b(in))); w(out + 6, g(t(in))); w(out + 7, g.Inverse()(v<%s>(in)));'
          'out[10] = g.Determinant() * 1.0; auto const h = g.Forget<OrthogonalMap>(); w(out + 11, h(v(in))); w(out + 14, h(b(in)));'
          'w(out + 17, h(t(in)));' % (e, to),
          lambda x, i, act=act, det=det, inv=inv: [
              act(x, v3(i)), x.mul(det, act(x, v3(i))), x(det) * i[0], inv(x, v3(i)), x(det), act(x, v3(i)),
              x.mul(det, act(x, v3(i))), x(det) * i[0]], where='permutation')
        for n2, det2 in perms.items():
            if det * det2 == 1:
                f1 = 'Permutation<F, %s>(%s::%s)' % (to, 'EvenPermutation' if det == 1 else 'OddPermutation', n)
                f2 = 'Permutation<%s, H>(%s::%s)' % (to, 'EvenPermutation' if det2 == 1 else 'OddPermutation', n2)
                o('Permutation %s then %s' % (n, n2), 3, 'w(out, (%s * %s)(v(in)));' % (f2, f1),
                  lambda x, i, n=n, n2=n2: [[v3(i)['XYZ'.index(ch)] for ch in n]['XYZ'.index(c2)] for c2 in n2], where='permutation')

    # Orthogonal maps: q after the signature.
    refl = 'Signature<F, L>(Sign::Positive(), DeduceSignReversingOrientation{}, Sign::Positive())'
    R = 'Rotation<L, M>(q(in)).template Forget<OrthogonalMap>()'
    om = '(%s * %s.Forget<OrthogonalMap>())' % (R, refl)

    def om_matrix(x, i, k=0):
        return x.matmul(x.rotation_matrix(q2(i, k)), [[1, 0, 0], [0, -1, 0], [0, 0, 1]])
    o('OrthogonalMap', 10,
      'auto const g = %s; w(out, g(v(in + 4))); w(out + 3, g(b(in + 4))); w(out + 6, g(t(in + 4))); w(out + 7, g.Inverse()(v<M>(in + 4)));'
      'w(out + 10, g.Inverse()(b<M>(in + 4))); w(out + 13, g(f<Vector>(in + 4))); out[22] = g.Determinant() * 1.0;' % om,
      lambda x, i: [x.matvec(om_matrix(x, i), v3(i, 4)), x.neg(x.matvec(om_matrix(x, i), v3(i, 4))), -i[4],
                    x.matvec(x.transpose(om_matrix(x, i)), v3(i, 4)), x.neg(x.matvec(x.transpose(om_matrix(x, i)), v3(i, 4))),
                    conj_form(x, om_matrix(x, i), sym(i, 4)), x(-1)], units=[0], where='orthogonal_map')
    o('OrthogonalMap composition', 11,
      'auto const g = %s; auto const s2 = Signature<M, G>(Sign::Negative(), Sign::Positive(), DeduceSignReversingOrientation{}).Forget<OrthogonalMap>();'
      'auto const k = Rotation<G, H>(q(in + 4)).template Forget<OrthogonalMap>() * s2; auto const p = k * g;'
      'w(out, p(v(in + 8))); w(out + 3, p(b(in + 8))); w(out + 6, p.AsRotation()(v(in + 8)));' % om,
      lambda x, i: (lambda mm: [x.matvec(mm, v3(i, 8))] * 3)(
          x.matmul(x.matmul(x.rotation_matrix(q2(i, 4)), [[-1, 0, 0], [0, 1, 0], [0, 0, 1]]), om_matrix(x, i))),
      units=[0, 4], where='orthogonal_map')
    o('OrthogonalMap identity', 3, 'w(out, OrthogonalMap<F, F>::Identity()(v(in)));', lambda x, i: v3(i), where='orthogonal_map')
    o('Rotation forgotten', 7, 'auto const g = %s.Forget<OrthogonalMap>(); w(out, g(v(in + 4))); w(out + 3, g.AsRotation()(v(in + 4)));' % rot,
      lambda x, i: [x.rotate(q2(i), v3(i, 4))] * 2, units=[0], where='orthogonal_map')

    # Similarities.
    hom = 'Homothecy<double, %s, %s>(in[0])'
    o('Homothecy', 4, 'auto const g = Homothecy<double, F, G>(in[0]); w(out, g(v(in + 1))); w(out + 3, g.Inverse()(v<G>(in + 1)));'
      'out[6] = g.Determinant(); w(out + 7, g.Forget<ConformalMap>()(v(in + 1))); w(out + 10, Homothecy<double, F, F>::Identity()(v(in + 1)));'
      'w(out + 13, (Homothecy<double, G, H>(in[1]) * g)(v(in + 1)));',
      lambda x, i: [x.mul(i[0], v3(i, 1)), x.div(v3(i, 1), i[0]), x.pow(i[0], 3), x.mul(i[0], v3(i, 1)), v3(i, 1),
                    x.mul(i[0] * i[1], v3(i, 1))], where='homothecy')
    cm = 'auto const o1 = %s.Forget<ConformalMap>(); auto const o2 = Rotation<L, M>(q(in)).template Forget<ConformalMap>(); auto const o3 = Homothecy<double, M, L>(in[7]).Forget<ConformalMap>(); auto const g = o3 * o2 * o1;' % refl
    o('ConformalMap', 8, cm + 'w(out, g(v(in + 4))); w(out + 3, g.Inverse()(v<L>(in + 4))); out[6] = g.Determinant(); out[7] = g.scale();'
      'w(out + 8, g.orthogonal_map¹₁()(v(in + 4)));',
      lambda x, i: [x.mul(i[7], x.matvec(om_matrix(x, i), v3(i, 4))), x.div(x.matvec(x.transpose(om_matrix(x, i)), v3(i, 4)), i[7]),
                    None, i[7], x.matvec(om_matrix(x, i), v3(i, 4))], units=[0], where='conformal_map')
    o('ConformalMap identity', 3, 'w(out, ConformalMap<double, F, F>::Identity()(v(in)));', lambda x, i: v3(i), where='conformal_map')
    o('Identity', 6, 'Identity<F, G> const g; w(out, g(v(in))); w(out + 3, g(b(in))); w(out + 6, g(t(in)));'
      'w(out + 7, g.Inverse()(v<G>(in))); w(out + 10, g(f<Vector>(in))); w(out + 19, g.Forget<OrthogonalMap>()(v(in)));'
      'w(out + 22, g.Forget<Rotation>()(v(in)));',
      lambda x, i: [v3(i), v3(i), i[0], v3(i), sym(i), v3(i), v3(i)], where='identity')
    return obs


def others():
    obs = []

    def o(name, n, body, spec, where, **kw):
        obs.append(O(name, body, n, spec, where='geometry/%s_body.hpp' % where, **kw))
    cw = 'complexification'
    o('complex + -', 4, 'w(out, c(in) + c(in + 2)); w(out + 2, c(in) - c(in + 2)); w(out + 4, -c(in)); w(out + 6, +c(in));',
      lambda x, i: [i[0] + i[2], i[1] + i[3], i[0] - i[2], i[1] - i[3], -i[0], -i[1], i[0], i[1]], cw)
    o('complex + - real', 3, 'w(out, c(in) + in[2]); w(out + 2, in[2] + c(in)); w(out + 4, c(in) - in[2]); w(out + 6, in[2] - c(in));',
      lambda x, i: [i[0] + i[2], i[1], i[0] + i[2], i[1], i[0] - i[2], i[1], i[2] - i[0], -i[1]], cw)
    cm = lambda x, a, b: [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
    o('complex *', 4, 'w(out, c(in) * c(in + 2));', lambda x, i: cm(x, i[:2], i[2:]), cw)

    def cdiv(x, a, b):
        n = b[0] * b[0] + b[1] * b[1]
        return x.div(cm(x, a, [b[0], -b[1]]), n)
    o('complex /', 4, 'w(out, c(in) / c(in + 2));', lambda x, i: cdiv(x, i[:2], i[2:]), cw)
    o('complex scalar', 3, 'w(out, c(in) * in[2]); w(out + 2, in[2] * c(in)); w(out + 4, c(in) / in[2]); w(out + 6, in[2] / c(in));',
      lambda x, i: [i[0] * i[2], i[1] * i[2], i[0] * i[2], i[1] * i[2], i[0] / i[2], i[1] / i[2], cdiv(x, [i[2], x(0)], i[:2])], cw)
    o('complex assignments', 4,
      'auto a = c(in); a += c(in + 2); w(out, a); a = c(in); a -= c(in + 2); w(out + 2, a); a = c(in); a *= c(in + 2); w(out + 4, a);'
      'a = c(in); a /= c(in + 2); w(out + 6, a);',
      lambda x, i: [x.add(i[:2], i[2:]), x.sub(i[:2], i[2:]), cm(x, i[:2], i[2:]), cdiv(x, i[:2], i[2:])], cw)
    o('complex invariants', 2, 'w(out, c(in).Conjugate()); out[2] = c(in).Norm²(); out[3] = c(in).Norm();',
      lambda x, i: [i[0], -i[1], x.dot(i, i), x.sqrt(x.dot(i, i))], cw)
    o('complex InnerProduct', 4, 'w(out, InnerProduct(c(in), c(in + 2)));', lambda x, i: cm(x, i[:2], [i[2], -i[3]]), cw)
    cv = 'Complexification<Vec>(v(in + %d), v(in + %d))'
    o('complex vectors', 12, 'auto const a = %s, b1 = %s; auto const p = InnerProduct(a, b1); w(out, p); out[2] = a.Norm²();' % (cv % (0, 3), cv % (6, 9)),
      lambda x, i: [x.dot(v3(i), v3(i, 6)) + x.dot(v3(i, 3), v3(i, 9)), x.dot(v3(i, 3), v3(i, 6)) - x.dot(v3(i), v3(i, 9)),
                    x.dot(i[:6], i[:6])], cw)
    # Points and barycentres.
    pt = 'Point<Vec>{}'
    o('Point', 7, 'Point<Vec> const o; auto const p = o + v(in), q1 = v(in + 3) + o; w(out, p - q1); w(out + 3, (p - v(in + 3)) - o);'
      'auto a = p; a += v(in + 3); w(out + 6, a - o); a = p; a -= v(in + 3); w(out + 9, a - o);',
      lambda x, i: [x.sub(v3(i), v3(i, 3)), x.sub(v3(i), v3(i, 3)), x.add(v3(i), v3(i, 3)), x.sub(v3(i), v3(i, 3))], 'point')

    def bary(x, i, n, d):
        ws = x.sum(i[n * d:])
        return [x.div(x.sum([i[d * k + j] * i[n * d + k] for k in range(n)]), ws) for j in range(d)]
    o('BarycentreCalculator of vectors', 12,
      'BarycentreCalculator<Vec, double> a; for (int k = 0; k < 3; ++k) { a.Add(v(in + 3 * k), in[9 + k]); } w(out, a.Get()); out[3] = a.weight();',
      lambda x, i: bary(x, i, 3, 3) + [x.sum(i[9:])], 'barycentre_calculator')
    o('BarycentreCalculator of points', 12,
      'Point<Vec> const o; BarycentreCalculator<Point<Vec>, double> a; for (int k = 0; k < 3; ++k) { a.Add(o + v(in + 3 * k), in[9 + k]); } w(out, a.Get() - o); out[3] = a.weight();',
      lambda x, i: bary(x, i, 3, 3) + [x.sum(i[9:])], 'barycentre_calculator')
    o('Barycentre of points', 12,
      'Point<Vec> const o; w(out, Barycentre({o + v(in), o + v(in + 3), o + v(in + 6)}, {in[9], in[10], in[11]}) - o);',
      lambda x, i: bary(x, i, 3, 3), 'barycentre_calculator')
    o('midpoint', 6, 'Point<Vec> const o; w(out, Barycentre({o + v(in), o + v(in + 3)}) - o);',
      lambda x, i: x.div(x.add(v3(i), v3(i, 3)), x(2)), 'barycentre_calculator')
    # Direct sums.
    ds = 'using D = DirectSum<Vec, double>; auto const a = D(v(in), in[3]), b1 = D(v(in + 4), in[7]); auto const put = [&](int k, D const& d) { w(out + k, get<0>(d)); out[k + 3] = get<1>(d); };'
    o('DirectSum', 9, ds + 'put(0, a + b1); put(4, a - b1); put(8, -a); put(12, +a); put(16, a * in[8]); put(20, in[8] * a); put(24, a / in[8]);'
      'out[28] = InnerProduct(a, b1); out[29] = a.Norm²(); out[30] = a.Norm(); auto k = a; k += b1; put(31, k); k = a; k -= b1; put(35, k);'
      'k = a; k *= in[8]; put(39, k); k = a; k /= in[8]; put(43, k);',
      lambda x, i: (lambda a, b: [x.add(a, b), x.sub(a, b), x.neg(a), a, x.mul(i[8], a), x.mul(i[8], a), x.div(a, i[8]), x.dot(a, b),
                                  x.dot(a, a), x.sqrt(x.dot(a, a)), x.add(a, b), x.sub(a, b), x.mul(i[8], a), x.div(a, i[8])])(list(i[:4]), list(i[4:8])),
      'direct_sum')
    o('RP2Point', 3, 'auto const p = RP2Point<double, F>(in[0], in[1], in[2]); out[0] = p.x(); out[1] = p.y();',
      lambda x, i, conds: [None, None] if any(cd.op in ('eq', 'une', 'oeq') and r for cd, r in conds) else [i[0] / i[2], i[1] / i[2]], 'rp2_point')
    return obs


VARIANTS = {'': [], 'debug': ['-D_DEBUG=1'],
            'avx': ['-UPRINCIPIA_REQUIRES_AVX', '-DPRINCIPIA_REQUIRES_AVX=1', '-UPRINCIPIA_REQUIRES_FMA', '-DPRINCIPIA_REQUIRES_FMA=1',
                    '-mavx', '-mfma']}


def main(c):
    gs = {}
    for v, extra in VARIANTS.items():
        k = (' ' + v) if v else ''
        g = grassmann()
        fused = [x for x in g if x.name.startswith('Fused')]
        gs['grassmann' + k] = (PRELUDE, [x for x in g if x not in fused] + (fused if v == 'avx' else []), extra)
        gs['quaternions and matrices' + k] = (PRELUDE, quaternions() + matrices(), extra)
        gs['forms and others' + k] = (PRELUDE, forms() + others(), extra)
        gs['maps' + k] = (PRELUDE, maps(), extra)
    run(c, gs)


if __name__ == '__main__':
    vlib.main(main, 'C12', 'other', RULE)
