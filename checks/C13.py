#!/usr/bin/env python3
"""C13: rigid and similar motions transform degrees of freedom consistently."""
import os, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'), os.path.dirname(os.path.abspath(__file__))]
import vlib
from algebra import Obligation as O, flat, run
from irval import Unsupported, V
from fractions import Fraction as Fr

RULE = ('Each operation on points, degrees of freedom, rigid and similar motions, compiled to LLVM IR and abstracted to '
        'rational functions of its inputs, equals its definition as a rational function.')

PRELUDE = '''
#include "geometry/affine_map.hpp"
#include "geometry/barycentre_calculator.hpp"
#include "geometry/sphere.hpp"
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/homothecy.hpp"
#include "geometry/identity.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/permutation.hpp"
#include "geometry/perspective.hpp"
#include "geometry/rotation.hpp"
#include "geometry/signature.hpp"
#include "geometry/space.hpp"
#include "geometry/space_transformations.hpp"
#include "geometry/symmetric_bilinear_form.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/rigid_motion.hpp"
#include "physics/similar_motion.hpp"
#include "quantities/si.hpp"
using namespace principia::geometry::_affine_map;
using namespace principia::geometry::_barycentre_calculator;
using namespace principia::geometry::_sphere;

using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_homothecy;
using namespace principia::geometry::_identity;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_permutation;
using namespace principia::geometry::_perspective;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_sign;
using namespace principia::geometry::_signature;
using namespace principia::geometry::_space;
using namespace principia::geometry::_space_transformations;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_rigid_motion;
using namespace principia::physics::_similar_motion;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using F = Frame<struct FT, Arbitrary>;
using G = Frame<struct GT, Arbitrary>;
using H = Frame<struct HT, Arbitrary>;
using K = Frame<struct KT, Arbitrary>;
using L = Frame<struct LT, Arbitrary, Handedness::Left>;
using M = Frame<struct MT, Arbitrary, Handedness::Left>;
struct CT;
static Quaternion q(const double* p) { return Quaternion(p[0], R3Element<double>(p[1], p[2], p[3])); }
template<typename Fr> static Displacement<Fr> d(const double* p) { return Displacement<Fr>({p[0] * Metre, p[1] * Metre, p[2] * Metre}); }
template<typename Fr> static Position<Fr> x(const double* p) { return Fr::origin + d<Fr>(p); }
template<typename Fr> static Velocity<Fr> v(const double* p) { return Velocity<Fr>({p[0] * (Metre / Second), p[1] * (Metre / Second), p[2] * (Metre / Second)}); }
template<typename Fr> static AngularVelocity<Fr> a(const double* p) { return AngularVelocity<Fr>({p[0] * (Radian / Second), p[1] * (Radian / Second), p[2] * (Radian / Second)}); }
template<typename Fr> static DegreesOfFreedom<Fr> dof(const double* p) { return {x<Fr>(p), v<Fr>(p + 3)}; }
template<typename Fr> static RelativeDegreesOfFreedom<Fr> rdof(const double* p) { return {d<Fr>(p), v<Fr>(p + 3)}; }
template<typename Q> static double s(Q const& x) { return x / principia::quantities::_si::Unit<Q>; }
template<typename Q, typename Fr> static void w(double* p, Vector<Q, Fr> const& x) { p[0] = s(x.coordinates().x); p[1] = s(x.coordinates().y); p[2] = s(x.coordinates().z); }
template<typename Q, typename Fr> static void w(double* p, Bivector<Q, Fr> const& x) { p[0] = s(x.coordinates().x); p[1] = s(x.coordinates().y); p[2] = s(x.coordinates().z); }
template<typename Fr> static void w(double* p, Position<Fr> const& x) { w(p, x - Fr::origin); }
template<typename Fr> static void w(double* p, DegreesOfFreedom<Fr> const& x) { w(p, x.position()); w(p + 3, x.velocity()); }
template<typename Fr> static void w(double* p, RelativeDegreesOfFreedom<Fr> const& x) { w(p, x.displacement()); w(p + 3, x.velocity()); }
template<typename A, typename B> static OrthogonalMap<A, B> o(const double* p) {
  if constexpr (A::handedness == B::handedness) {
    return Rotation<A, B>(q(p)).template Forget<OrthogonalMap>();
  } else {
    using C = Frame<struct CT, Arbitrary, B::handedness>;
    return Rotation<C, B>(q(p)).template Forget<OrthogonalMap>() *
           Signature<A, C>(Sign::Positive(), DeduceSignReversingOrientation{}, Sign::Positive()).template Forget<OrthogonalMap>();
  }
}
template<typename A, typename B> static RigidTransformation<A, B> rt(const double* p) { return RigidTransformation<A, B>(x<A>(p + 4), x<B>(p + 7), o<A, B>(p)); }
template<typename A, typename B> static RigidMotion<A, B> rm(const double* p) { return RigidMotion<A, B>(rt<A, B>(p), a<A>(p + 10), v<A>(p + 13)); }
template<typename A, typename B> static RigidMotion<A, B> rmʹ(const double* p) { return RigidMotion<A, B>(rt<A, B>(p), a<B>(p + 10), v<B>(p + 13)); }
template<typename A, typename B> static SimilarMotion<A, B> sm(const double* p) {
  using C = Frame<struct CT, Arbitrary, B::handedness>;
  return SimilarMotion<C, B>::DilatationAboutOrigin(Homothecy<double, C, B>(p[16]), p[17] / Second) * rm<A, C>(p).template Forget<SimilarMotion>();
}
'''


def v3(i, k=0):
    return list(i[k:k + 3])


def lin(x, i, v, reflect=False, k=0):
    """The image of the vector v by the linear part."""
    return x.rotate(i[k:k + 4], [v[0], -v[1], v[2]] if reflect else v)


def unlin(x, i, v, reflect=False, k=0):
    r = x.rotate(x.conj(i[k:k + 4]), v)
    return [r[0], -r[1], r[2]] if reflect else r


def bi(x, f, reflect):
    return (lambda *a: x.neg(f(*a))) if reflect else f


def similar(x, i, k, p, u):
    p, u = Motion(x, i, False, k)(p, u)
    return [x.mul(i[k + 16], p), x.add(x.mul(i[k + 16] * i[k + 17], p), x.mul(i[k + 16], u))]


class Motion:
    """The definition: where the origin of the target is, and how fast it moves, seen from the source."""
    def __init__(self, x, i, reflect=False, k=0):
        self.x, self.i, self.reflect, self.k = x, i, reflect, k
        self.omega, self.vel = v3(i, k + 10), v3(i, k + 13)
        self.origin = x.sub(v3(i, k + 4), self.un(v3(i, k + 7)))

    def li(self, v):
        return lin(self.x, self.i, v, self.reflect, self.k)

    def un(self, v):
        return unlin(self.x, self.i, v, self.reflect, self.k)

    def sign(self, v):
        return self.x.neg(v) if self.reflect else v

    def __call__(self, p, u):
        x = self.x
        r = x.sub(p, self.origin)
        return [self.li(r), self.li(x.sub(x.sub(u, self.vel), x.cross(self.omega, r)))]

    def back(self, p, u):
        x = self.x
        r = self.un(p)
        return [x.add(self.origin, r), x.add(x.add(self.un(u), self.vel), x.cross(self.omega, r))]

    # The motion of the source with respect to the target.
    def omega_of_source(self):
        return self.x.neg(self.sign(self.li(self.omega)))

    def velocity_of_source_origin(self):
        return self([self.x(0)] * 3, [self.x(0)] * 3)[1]


def motions():
    obs = []

    def ob(name, n, body, spec=None, where='physics/rigid_motion_body.hpp', **kw):
        obs.append(O(name, body, n, spec, where=where, **kw))
    for A, B, r in (('F', 'G', False), ('F', 'L', True), ('L', 'F', True), ('L', 'M', False)):
        n = ' %s %s' % (A, B)
        t = dict(A=A, B=B)
        # The affine maps.
        ob('RigidTransformation action' + n, 13, 'w(out, rt<%(A)s, %(B)s>(in)(x<%(A)s>(in + 10)));' % t,
           lambda x, i, r=r: x.add(lin(x, i, x.sub(v3(i, 10), v3(i, 4)), r), v3(i, 7)), 'geometry/affine_map_body.hpp', units=[0])
        ob('RigidTransformation inverse' + n, 13, 'w(out, rt<%(A)s, %(B)s>(in).Inverse()(x<%(B)s>(in + 10)));' % t,
           lambda x, i, r=r: x.add(unlin(x, i, x.sub(v3(i, 10), v3(i, 7)), r), v3(i, 4)), 'geometry/affine_map_body.hpp', units=[0])
        ob('RigidTransformation forgotten' + n, 13, 'w(out, rt<%(A)s, %(B)s>(in).Forget<Similarity>()(x<%(A)s>(in + 10)));' % t,
           lambda x, i, r=r: x.add(lin(x, i, x.sub(v3(i, 10), v3(i, 4)), r), v3(i, 7)), 'geometry/affine_map_body.hpp', units=[0])
        # The motions.
        ob('RigidMotion action' + n, 22, 'w(out, rm<%(A)s, %(B)s>(in)(dof<%(A)s>(in + 16)));' % t,
           lambda x, i, r=r: Motion(x, i, r)(v3(i, 16), v3(i, 19)), units=[0])
        ob('RigidMotion inverse' + n, 22, 'w(out, rm<%(A)s, %(B)s>(in).Inverse()(dof<%(B)s>(in + 16)));' % t,
           lambda x, i, r=r: Motion(x, i, r).back(v3(i, 16), v3(i, 19)), units=[0])
        ob('RigidMotion accessors' + n, 16, 'auto const m = rm<%(A)s, %(B)s>(in); w(out, m.angular_velocity_of<%(A)s>()); w(out + 3, m.angular_velocity_of<%(B)s>());'
           'w(out + 6, m.velocity_of_origin_of<%(A)s>()); w(out + 9, m.velocity_of_origin_of<%(B)s>()); w(out + 12, m.rigid_transformation().Inverse()(%(B)s::origin));'
           'w(out + 15, m.orthogonal_map()(d<%(A)s>(in + 4)));' % t,
           lambda x, i, r=r: (lambda m: [m.omega_of_source(), m.omega, m.velocity_of_source_origin(), m.vel, m.origin, m.li(v3(i, 4))])(Motion(x, i, r)), units=[0])
        ob('RigidMotion accessors of the inverse' + n, 16, 'auto const m = rm<%(A)s, %(B)s>(in).Inverse(); w(out, m.angular_velocity_of<%(A)s>()); w(out + 3, m.angular_velocity_of<%(B)s>());'
           'w(out + 6, m.velocity_of_origin_of<%(A)s>()); w(out + 9, m.velocity_of_origin_of<%(B)s>()); ' % t,
           lambda x, i, r=r: (lambda m: [m.omega_of_source(), m.omega, m.velocity_of_source_origin(), m.vel])(Motion(x, i, r)), units=[0])
        # From the motion of the source with respect to the target.
        ob('RigidMotion from the motion of the source' + n, 22,
           'auto const m = rmʹ<%(A)s, %(B)s>(in); w(out, m(dof<%(A)s>(in + 16))); w(out + 6, m.angular_velocity_of<%(A)s>()); w(out + 9, m.velocity_of_origin_of<%(A)s>());'
           'w(out + 12, m.angular_velocity_of<%(B)s>());' % t,
           # q -> (T(q), L(u) + v + w x (T(q) - T(0)))
           lambda x, i, r=r: (lambda off: [x.add(x.add(lin(x, i, v3(i, 16), r), off), [x(0)] * 3),
                                           x.add(x.add(lin(x, i, v3(i, 19), r), v3(i, 13)), x.cross(v3(i, 10), lin(x, i, v3(i, 16), r))),
                                           v3(i, 10), v3(i, 13), x.neg(x.neg(unlin(x, i, v3(i, 10), r)) if r else unlin(x, i, v3(i, 10), r))])(
               x.sub(v3(i, 7), lin(x, i, v3(i, 4), r))), units=[0])
        ob('RigidMotion forgotten' + n, 22, 'auto const m = rm<%(A)s, %(B)s>(in).template Forget<SimilarMotion>(); w(out, m(dof<%(A)s>(in + 16))); w(out + 6, m.Inverse()(dof<%(B)s>(in + 16)));'
           'w(out + 12, m.angular_velocity_of<%(A)s>()); w(out + 15, m.angular_velocity_of<%(B)s>()); w(out + 18, m.velocity_of_origin_of<%(A)s>()); w(out + 21, m.velocity_of_origin_of<%(B)s>());' % t,
           lambda x, i, r=r: (lambda m: [m(v3(i, 16), v3(i, 19)), m.back(v3(i, 16), v3(i, 19)), m.omega_of_source(), m.omega, m.velocity_of_source_origin(), m.vel])(Motion(x, i, r)),
           units=[0])
        # Similar motions: a dilatation after a rigid motion.
        ob('SimilarMotion action' + n, 24, 'auto const m = sm<%(A)s, %(B)s>(in); w(out, m(dof<%(A)s>(in + 18)));' % t,
           lambda x, i, r=r: (lambda pu: [x.mul(i[16], pu[0]), x.add(x.mul(i[16] * i[17], pu[0]), x.mul(i[16], pu[1]))])(Motion(x, i, r)(v3(i, 18), v3(i, 21))),
           'physics/similar_motion_body.hpp', units=[0])
        ob('SimilarMotion accessors' + n, 18, 'auto const m = sm<%(A)s, %(B)s>(in); w(out, m.angular_velocity_of<%(A)s>()); w(out + 3, m.angular_velocity_of<%(B)s>());'
           'w(out + 6, m.velocity_of_origin_of<%(A)s>()); w(out + 9, m.velocity_of_origin_of<%(B)s>()); out[12] = m.conformal_map().scale(); w(out + 13, m.similarity().Inverse()(%(B)s::origin));' % t,
           lambda x, i, r=r: (lambda m: [m.omega_of_source(), m.omega,
                                         x.add(x.mul(i[16], m.velocity_of_source_origin()), x.mul(-i[16] * i[17], m.li(m.origin))), m.vel, i[16], m.origin])(Motion(x, i, r)),
           'physics/similar_motion_body.hpp', units=[0])
        ob('SimilarMotion inverse' + n, 24, 'auto const m = sm<%(A)s, %(B)s>(in).Inverse(); w(out, m(dof<%(B)s>(in + 18)));'
           'w(out + 6, m.angular_velocity_of<%(B)s>()); w(out + 9, m.velocity_of_origin_of<%(B)s>());' % t,
           lambda x, i, r=r: (lambda m: (lambda p: m.back(p, x.sub(x.div(v3(i, 21), i[16]), x.mul(i[17], p))) + [m.omega, m.vel])(x.div(v3(i, 18), i[16])))(Motion(x, i, r)),
           'physics/similar_motion_body.hpp', units=[0])
    # Others.
    ob('RigidMotion identity', 6, 'w(out, RigidMotion<F, F>::Identity()(dof<F>(in))); w(out + 6, RigidMotion<F, G>::Identity().Inverse()(dof<G>(in)));',
       lambda x, i: list(i) + list(i))
    ob('SimilarMotion identity', 6, 'w(out, SimilarMotion<F, G>::Identity()(dof<F>(in)));', lambda x, i: list(i), 'physics/similar_motion_body.hpp')
    ob('RigidTransformation identity', 3, 'w(out, RigidTransformation<F, G>::Identity()(x<F>(in)));', lambda x, i: list(i), 'geometry/affine_map_body.hpp')
    ob('non rotating motion looking glass', 12, 'auto const m = RigidMotion<F, L>::MakeNonRotatingMotion(dof<L>(in)); w(out, m(dof<F>(in + 6))); w(out + 6, m.angular_velocity_of<F>());',
       lambda x, i: [x.add([i[6], i[8], i[7]], v3(i, 0)), x.add([i[9], i[11], i[10]], v3(i, 3)), [x(0)] * 3])
    ob('accelerated motion', 22, 'AcceleratedRigidMotion<F, G> const m(rm<F, G>(in), Bivector<AngularAcceleration, F>({in[16] * (Radian / Second / Second), in[17] * (Radian / Second / Second), in[18] * (Radian / Second / Second)}),'
       ' Vector<Acceleration, F>({in[19] * (Metre / Second / Second), in[20] * (Metre / Second / Second), in[21] * (Metre / Second / Second)}));'
       'w(out, m.angular_acceleration_of<G>()); w(out + 3, m.acceleration_of_origin_of<G>()); w(out + 6, m.rigid_motion().angular_velocity_of<G>());',
       lambda x, i: [v3(i, 16), v3(i, 19), v3(i, 10)], units=[0])
    sp = 'geometry/space_body.hpp'
    ob('degrees of freedom', 12, 'auto const p = dof<F>(in), q = dof<F>(in + 6); w(out, p - q); auto r = p; r += rdof<F>(in + 6); w(out + 6, r); r -= rdof<F>(in + 6); w(out + 12, r); w(out + 18, rdof<F>(in) + p); w(out + 24, p - rdof<F>(in + 6));',
       lambda x, i: [x.sub(i[:6], i[6:]), x.add(i[:6], i[6:]), i[:6], x.mul(2, i[:6]), x.sub(i[:6], i[6:])], sp)
    ob('relative degrees of freedom', 13, 'auto const p = rdof<F>(in), q = rdof<F>(in + 6); w(out, p + q); w(out + 6, p - q); w(out + 12, -p); w(out + 18, p * in[12]); w(out + 24, in[12] * p); w(out + 30, p / in[12]);'
       'auto r = p; r += q; w(out + 36, r); r = p; r -= q; w(out + 42, r);',
       lambda x, i: (lambda p, q, k: [x.add(p, q), x.sub(p, q), x.neg(p), x.mul(k, p), x.mul(k, p), x.div(p, k), x.add(p, q), x.sub(p, q)])(i[:6], i[6:12], i[12]), sp)
    ob('relative degrees of freedom mapped', 10, 'w(out, o<F, L>(in)(rdof<F>(in + 4)));', lambda x, i: [lin(x, i, v3(i, 4), True), lin(x, i, v3(i, 7), True)], sp, units=[0])
    ob('barycentre of degrees of freedom', 18, 'w(out, Barycentre({dof<F>(in), dof<F>(in + 6)}, {in[12] * Kilogram, in[13] * Kilogram})); BarycentreCalculator<DegreesOfFreedom<F>, Mass> c; c.Add(dof<F>(in), in[12] * Kilogram); c.Add(dof<F>(in + 6), in[13] * Kilogram); w(out + 6, c.Get()); out[12] = s(c.weight());',
       lambda x, i: (lambda b: [b, b, i[12] + i[13]])(x.div(x.add(x.mul(i[12], i[:6]), x.mul(i[13], i[6:12])), i[12] + i[13])), sp)
    ob('barycentre of relative degrees of freedom', 14, 'BarycentreCalculator<RelativeDegreesOfFreedom<F>, Mass> c; c.Add(rdof<F>(in), in[12] * Kilogram); c.Add(rdof<F>(in + 6), in[13] * Kilogram); w(out, c.Get());',
       lambda x, i: x.div(x.add(x.mul(i[12], i[:6]), x.mul(i[13], i[6:12])), i[12] + i[13]), sp)
    # Similar motions composed.
    ob('SimilarMotion composition', 42, 'auto const m = sm<G, H>(in + 18) * sm<F, G>(in); w(out, m(dof<F>(in + 36))); ',
       lambda x, i: similar(x, i, 18, *similar(x, i, 0, v3(i, 36), v3(i, 39))), 'physics/similar_motion_body.hpp', units=[0, 18])
    # Perspective: the camera looks along z, and the focal plane is at `focal`.
    pe = 'geometry/perspective_body.hpp'
    for how in ('', '.Inverse()'):
        cam = 'Perspective<F, G> const p((rt<F, G>(in)%s).Forget<Similarity>(), in[10] * Metre); ' % how if not how else 'Perspective<F, G> const p(rt<F, G>(in).Inverse().Forget<Similarity>(), in[10] * Metre); '
        nm = ' from camera' if how else ''

        def local(x, i, k):
            return x.add(lin(x, i, x.sub(v3(i, k), v3(i, 4))), v3(i, 7))

        def rel(x, i, k):
            return x.sub(v3(i, k), x.add(unlin(x, i, x.neg(v3(i, 7))), v3(i, 4)))
        # At infinity when the point is in the plane of the camera.
        ob('Perspective' + nm, 14, cam + 'auto const r = p(x<F>(in + 11)); out[0] = s(r.x()); out[1] = s(r.y()); w(out + 2, p.camera()); out[5] = s(p.focal());',
           lambda x, i, conds: (lambda q: ([None, None] if any(r and c.op == 'eq' for c, r in conds) else [i[10] * q[0] / q[2], i[10] * q[1] / q[2]]) +
                                x.add(unlin(x, i, x.neg(v3(i, 7))), v3(i, 4)) + [i[10]])(local(x, i, 11)), pe, units=[0])
        def centred(x):
            from poly import Poly
            x.dom.rules['x0'] = (2, Poly.const(1) - Poly.var('x1') * Poly.var('x1') - Poly.var('x2') * Poly.var('x2') - Poly.var('x3') * Poly.var('x3'))
            return [x(0) if 4 <= k < 10 else x.var('x%d' % k) for k in range(16)]
        ob('Perspective distances' + nm, centred, cam + 'out[0] = p.Tan²AngularDistance(x<F>(in + 10), x<F>(in + 13)); out[1] = s(p.SquaredDistanceFromCamera(x<F>(in + 10)));',
           lambda x, i: (lambda a, b: [(lambda w: x.dot(w, w))(x.cross(a, b)) / (x.dot(a, b) * x.dot(a, b)), x.dot(a, a)])(rel(x, i, 10), rel(x, i, 13)), pe)
        ob('Perspective size of sphere' + nm, 15, cam + 'out[0] = p.SphereSin²HalfAngle(Sphere<F>(x<F>(in + 11), in[14] * Metre));',
           lambda x, i, conds: (lambda q: 1 if not any(c.a.same(q) == r if c.op == 'lt' else c.a.same(q) != r for c, r in conds if isinstance(c.a, V)) else q)(
               i[14] * i[14] / x.dot(rel(x, i, 11), rel(x, i, 11))), pe, units=[0])

        # A segment with no visible end, two visible ends, or one.
        def cut(x, i, conds):
            # The camera space depths.
            f, z1, z2 = i[10], local(x, i, 11)[2], local(x, i, 14)[2]
            vis = {}
            for c, r in conds:
                if not isinstance(c.a, V):
                    continue
                op = c.op if r else {'ge': 'lt', 'lt': 'ge', 'gt': 'le', 'le': 'gt'}.get(c.op)
                for k, z in ((1, z1), (2, z2)):
                    if (c.a - c.b).same(z - f):
                        vis[k] = op in ('ge', 'gt')
                    elif (c.a - c.b).same(f - z):
                        vis[k] = op in ('le', 'lt')
            if set(vis) != {1, 2}:
                raise Unsupported('conditions on the depths %r' % (conds,))
            if not vis[1] and not vis[2]:
                return [0] + [None] * 6
            a, b = v3(i, 11), v3(i, 14)
            k = (f - z1) / (z2 - z1) if vis[1] != vis[2] else None
            m = x.add(a, x.mul(k, x.sub(b, a))) if k is not None else None
            return [1] + (a if vis[1] else m) + (b if vis[2] else m)
        ob('Perspective segment behind the focal plane' + nm, 17, cam + 'auto const g = p.SegmentBehindFocalPlane({x<F>(in + 11), x<F>(in + 14)}); out[0] = g.has_value(); '
           'if (g) { w(out + 1, g->first); w(out + 4, g->second); }', cut, pe, units=[0])
    # Compositions: the action is that of one after the other.
    for A, B, C, r, s in (('F', 'G', 'H', False, False), ('F', 'L', 'G', True, True), ('F', 'G', 'L', False, True), ('F', 'L', 'M', True, False)):
        n = ' %s %s %s' % (A, B, C)
        t = dict(A=A, B=B, C=C)
        ob('RigidTransformation composition' + n, 23, 'w(out, (rt<%(B)s, %(C)s>(in + 10) * rt<%(A)s, %(B)s>(in))(x<%(A)s>(in + 20)));' % t,
           lambda x, i, r=r, s=s: x.add(lin(x, i, x.sub(x.add(lin(x, i, x.sub(v3(i, 20), v3(i, 4)), r), v3(i, 7)), v3(i, 14)), s, 10), v3(i, 17)),
           'geometry/affine_map_body.hpp', units=[0, 10])
        ob('RigidMotion composition' + n, 38,
           'auto const m = rm<%(B)s, %(C)s>(in + 16) * rm<%(A)s, %(B)s>(in); w(out, m(dof<%(A)s>(in + 32)));' % t,
           lambda x, i, r=r, s=s: Motion(x, i, s, 16)(*Motion(x, i, r)(v3(i, 32), v3(i, 35))), units=[0, 16])
        ob('RigidMotion composition angular velocity' + n, 32,
           'auto const m = rm<%(B)s, %(C)s>(in + 16) * rm<%(A)s, %(B)s>(in); w(out, m.angular_velocity_of<%(C)s>());' % t,
           lambda x, i, r=r, s=s: x.add(v3(i, 10), Motion(x, i, r).sign(Motion(x, i, r).un(v3(i, 26)))), units=[0, 16])
        ob('RigidMotion composition velocity' + n, 32,
           'auto const m = rm<%(B)s, %(C)s>(in + 16) * rm<%(A)s, %(B)s>(in); w(out, m.velocity_of_origin_of<%(C)s>());' % t,
           lambda x, i, r=r, s=s: (lambda m1, m2: m1.back(*m2.back([x(0)] * 3, [x(0)] * 3))[1])(Motion(x, i, r), Motion(x, i, s, 16)), units=[0, 16])
    return obs


def main(c):
    from C12 import VARIANTS
    gs = {('motions ' + v).strip(): (PRELUDE, motions(), extra) for v, extra in VARIANTS.items()}
    run(c, gs)


if __name__ == '__main__':
    vlib.main(main, 'C13', 'other', RULE)
