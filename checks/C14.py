#!/usr/bin/env python3
"""C14: the reference frames are those of their definitions, and so are the accelerations in them."""
import os, sys
from fractions import Fraction
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'), os.path.dirname(os.path.abspath(__file__))]
import vlib
from algebra import Obligation as O, flat, run
from poly import Poly
from C12 import VARIANTS, one_rule

RULE = ('Each function of the reference frames, compiled to LLVM IR with an ephemeris whose bodies have arbitrary positions, '
        'velocities, accelerations and jerks, and an arbitrary linear gravity field, and abstracted to rational functions of '
        'these, equals its definition as a rational function.')

PRELUDE = '''
#include "physics/body_centred_body_direction_reference_frame.hpp"
#include "physics/body_centred_non_rotating_reference_frame.hpp"
#include "physics/body_surface_frame_field.hpp"
#include "physics/body_surface_reference_frame.hpp"
#include "physics/rigid_reference_frame.hpp"
#include "physics/rotating_pulsating_reference_frame.hpp"
#include "geometry/space_transformations.hpp"
using namespace principia::base::_not_null;
using namespace principia::geometry::_affine_map;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_space;
using namespace principia::geometry::_space_transformations;
using namespace principia::physics::_barycentric_rotating_reference_frame;
using namespace principia::physics::_body_centred_body_direction_reference_frame;
using namespace principia::physics::_body_centred_non_rotating_reference_frame;
using namespace principia::physics::_body_surface_frame_field;
using namespace principia::physics::_body_surface_reference_frame;
using namespace principia::physics::_reference_frame;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_rigid_motion;
using namespace principia::physics::_rigid_reference_frame;
using namespace principia::physics::_rotating_pulsating_reference_frame;
using namespace principia::physics::_similar_motion;
using namespace principia::physics::_trajectory;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using namespace principia::physics::_rotating_body;
using I = Frame<struct IT, Inertial>;
using T = Frame<struct TT, Arbitrary>;
static Quaternion q(const double* p) { return Quaternion(p[0], R3Element<double>(p[1], p[2], p[3])); }
template<typename Q, typename Fr> static Vector<Q, Fr> vec(const double* p) { return Vector<Q, Fr>({p[0] * Unit<Q>, p[1] * Unit<Q>, p[2] * Unit<Q>}); }
template<typename Fr> static Displacement<Fr> d(const double* p) { return vec<Length, Fr>(p); }
template<typename Fr> static Position<Fr> x(const double* p) { return Fr::origin + d<Fr>(p); }
template<typename Fr> static Velocity<Fr> v(const double* p) { return vec<Speed, Fr>(p); }
template<typename Fr> static DegreesOfFreedom<Fr> dof(const double* p) { return {x<Fr>(p), v<Fr>(p + 3)}; }
template<typename Q> static double s(Q const& x) { return x / Unit<Q>; }
template<typename Q, typename Fr> static void w(double* p, Vector<Q, Fr> const& x) { p[0] = s(x.coordinates().x); p[1] = s(x.coordinates().y); p[2] = s(x.coordinates().z); }
template<typename Q, typename Fr> static void w(double* p, Bivector<Q, Fr> const& x) { p[0] = s(x.coordinates().x); p[1] = s(x.coordinates().y); p[2] = s(x.coordinates().z); }
template<typename Fr> static void w(double* p, Position<Fr> const& x) { w(p, x - Fr::origin); }
template<typename Fr> static void w(double* p, DegreesOfFreedom<Fr> const& x) { w(p, x.position()); w(p + 3, x.velocity()); }
struct Probe : RigidReferenceFrame<I, T> {
  using Base = RigidReferenceFrame<I, T>;
  using Base::Trihedron;
  static void trihedra(const double* in, Trihedron<Length, ArealSpeed>& o0, Trihedron<double, double>& n0,
                       Trihedron<Length, ArealSpeed, 1>& o1, Trihedron<double, double, 1>& n1,
                       Trihedron<Length, ArealSpeed, 2>& o2, Trihedron<double, double, 2>& n2) {
    auto const r = d<I>(in);
    auto const ṙ = v<I>(in + 3);
    auto const r̈ = vec<Acceleration, I>(in + 6);
    auto const r3 = vec<Jerk, I>(in + 9);
    Base::ComputeTrihedra(r, ṙ, o0, n0);
    Base::ComputeTrihedraDerivatives(r, ṙ, r̈, o0, n0, o1, n1);
    Base::ComputeTrihedraDerivatives2(r, ṙ, r̈, r3, o0, n0, o1, n1, o2, n2);
  }
  static void angular(const double* in, double* out) {
    Rotation<I, T> rotation = Rotation<I, T>::Identity();
    AngularVelocity<I> angular_velocity;
    Base::ComputeAngularDegreesOfFreedom(dof<I>(in), dof<I>(in + 12), vec<Acceleration, I>(in + 6), vec<Acceleration, I>(in + 18), rotation, angular_velocity);
    double const e[] = {1, 0, 0, 0, 1, 0, 0, 0, 1};
    for (int k : {0, 3, 6}) { w(out + k, rotation.Inverse()(vec<double, T>(e + k))); }
    w(out + 9, angular_velocity);
  }
  static auto rotation(Trihedron<double, double> const& n0) { return Base::ComputeRotation(n0); }
  static auto velocity(Trihedron<double, double> const& n0, Trihedron<double, double, 1> const& n1) { return Base::ComputeAngularVelocity(n0, n1); }
  static auto acceleration(Trihedron<double, double> const& n0, Trihedron<double, double, 1> const& n1, Trihedron<double, double, 2> const& n2) {
    return Base::ComputeAngularAcceleration(n0, n1, n2);
  }
};
'''


def v3(i, k=0):
    return list(i[k:k + 3])


class Two:
    """Two bodies in an arbitrary position: the direction from one to the other is the image of the first axis, and
    their relative velocity is in the plane of the first two."""
    def __init__(self, x, scale=None, fixed=False):
        self.x = x
        var = lambda n: x.var(n)
        self.q = [x(k) / x(9) for k in (2, 4, 5, 6)] if fixed else [var('q%d' % k) for k in range(4)]
        x.dom.positive |= {'rho', 'vy'}
        if not fixed and 'q0' not in x.dom.rules:
            x.dom.rules['q0'] = (2, Poly.const(1) - sum((Poly.var('q%d' % k) * Poly.var('q%d' % k) for k in (1, 2, 3)), Poly()))
        self.rho, self.vx, self.vy = var('rho'), var('vx'), var('vy')
        self.a = [var('a%d' % k) for k in range(3)]
        self.j = [var('j%d' % k) for k in range(3)]
        if scale is not None:
            self.rho, self.vx, self.vy, self.a, self.j = scale * self.rho, scale * self.vx, scale * self.vy, x.mul(scale, self.a), x.mul(scale, self.j)
        z = x(0)
        self.rel = [[self.rho, z, z], [self.vx, self.vy, z], self.a, self.j]
        # The angular velocity, in the axes of the frame, from ė = w × e: the direction of the other body, whose
        # derivative is v_y / ρ along the second axis, and the plane of the motion.
        self.omega = [self.a[2] / self.vy, z, self.vy / self.rho]
        # The derivatives of the components in the rotating axes.
        drho = self.vx
        dvy = self.a[1] - self.vy / self.rho * self.vx
        daz = self.j[2] - self.a[2] / self.vy * self.a[1]
        self.alpha = [daz / self.vy - self.a[2] * dvy / (self.vy * self.vy), z,
                      dvy / self.rho - self.vy * drho / (self.rho * self.rho)]

    def to(self, v):
        return self.x.rotate(self.x.conj(self.q), v)

    def fro(self, v):
        return self.x.rotate(self.q, v)


def relative(x):
    t = Two(x)
    return flat([t.fro(v) for v in t.rel])


def pair(x):
    t = Two(x)
    p = [x.var('p%d' % k) for k in range(12)]
    return p + x.add(p, flat([t.fro(v) for v in t.rel]))


MOCK = """
#include <array>
namespace principia::physics::_continuous_trajectory::internal {
template<> class ContinuousTrajectory<I> : public Trajectory<I> {
 public:
  explicit ContinuousTrajectory(double const* in) : in_(in) {}
  Instant t_min() const override { return Instant(); }
  Instant t_max() const override { return Instant(); }
  double const* at(Instant const& t) const { return t == Instant() + 1 * Second ? in_ : in_ + 100; }
  Position<I> EvaluatePosition(Instant const& t) const override { return x<I>(at(t)); }
  Velocity<I> EvaluateVelocity(Instant const& t) const override { return v<I>(at(t) + 3); }
  DegreesOfFreedom<I> EvaluateDegreesOfFreedom(Instant const& t) const override { return dof<I>(at(t)); }
  double const* in_;
};
}
namespace principia::physics::_ephemeris::internal {
using principia::physics::_continuous_trajectory::ContinuousTrajectory;
// The bodies have consecutive indices.
template<typename V>
struct Map {
  using Key = not_null<MassiveBody const*>;
  struct value_type { MassiveBody const* first; V second = zero(); };
  static V zero() { if constexpr (requires { V{}; }) return V{}; else return V(I::origin, I::unmoving); }
  using const_iterator = value_type const*;
  value_type items[3];
  int n = 0;
  const_iterator begin() const { return items; }
  const_iterator end() const { return items + n; }
  const_iterator cbegin() const { return items; }
  const_iterator cend() const { return items + n; }
  const_iterator find(Key k) const { for (int i = 0; i < n; ++i) if (items[i].first == (MassiveBody const*)k) return items + i; return end(); }
  bool contains(Key k) const { return find(k) != end(); }
  V const& at(Key k) const { return find(k)->second; }
  int size() const { return n; }
  bool empty() const { return n == 0; }
  void reserve(int) {}
  void clear() { n = 0; }
  void emplace(Key k, V const& v) { if (!contains(k)) { items[n].first = k; items[n].second = v; ++n; } }
  template<typename P> void insert(P const& p) { emplace(p.first, p.second); }
  void insert_or_assign(Key k, V const& v) { (*this)[k] = v; }
  V& operator[](Key k) { emplace(k, zero()); return const_cast<V&>(at(k)); }
};
template<> class Ephemeris<I> {
 public:
  using BodiesToPositions = Map<Position<I>>;
  using BodiesToVelocities = Map<Velocity<I>>;
  using BodiesToDegreesOfFreedom = Map<DegreesOfFreedom<I>>;
  Ephemeris(double const* in, MassiveBody const* b0, MassiveBody const* b1, MassiveBody const* b2)
    : in(in), trajectories{ContinuousTrajectory<I>(in), ContinuousTrajectory<I>(in + 12), ContinuousTrajectory<I>(in + 24)}, list{b0, b1, b2} {}
  virtual ~Ephemeris() = default;
  virtual not_null<ContinuousTrajectory<I> const*> trajectory(not_null<MassiveBody const*> b) const { return &trajectories[index(b)]; }
  int index(MassiveBody const* b) const { return b == list[0] ? 0 : b == list[1] ? 1 : 2; }
  virtual Instant t_min() const { return Instant(); }
  virtual Instant t_max() const { return Instant(); }
  double const* state(MassiveBody const* b, Instant const& t) const { return trajectories[index(b)].at(t); }
  virtual Vector<Acceleration, I> ComputeGravitationalAccelerationOnMassiveBody(not_null<MassiveBody const*> b, Instant const& t) const { return vec<Acceleration, I>(state(b, t) + 6); }
  Vector<Jerk, I> ComputeGravitationalJerkOnMassiveBody(not_null<MassiveBody const*> b, Instant const& t) const { return vec<Jerk, I>(state(b, t) + 9); }
  virtual std::vector<Vector<Acceleration, I>> ComputeGravitationalAccelerationOnMassiveBodies(
      std::vector<not_null<MassiveBody const*>> const& bodies, BodiesToPositions const& p, Instant const& t) const {
    std::vector<Vector<Acceleration, I>> r;
    // An error if these are not the positions of the bodies at `t`.
    for (auto const b : bodies) r.push_back(ComputeGravitationalAccelerationOnMassiveBody(b, t) + 3 * (p.at(b) - x<I>(state(b, t))) * Unit<Acceleration> / Metre);
    return r;
  }
  std::vector<Vector<Jerk, I>> ComputeGravitationalJerkOnMassiveBodies(
      std::vector<not_null<MassiveBody const*>> const& bodies, BodiesToDegreesOfFreedom const& p) const {
    Instant const t = Instant() + 1 * Second;
    std::vector<Vector<Jerk, I>> r;
    for (auto const b : bodies) r.push_back(ComputeGravitationalJerkOnMassiveBody(b, t) +
       3 * (p.at(b).position() - x<I>(state(b, t))) * Unit<Jerk> / Metre + 5 * (p.at(b).velocity() - v<I>(state(b, t) + 3)) * Unit<Jerk> / Unit<Speed>);
    return r;
  }
  BodiesToPositions EvaluateAllPositions(Instant const& t) const { BodiesToPositions r; for (int i : {0, 1, 2}) r.emplace(list[i], trajectories[i].EvaluatePosition(t)); return r; }
  BodiesToVelocities EvaluateAllVelocities(Instant const& t) const { BodiesToVelocities r; for (int i : {0, 1, 2}) r.emplace(list[i], trajectories[i].EvaluateVelocity(t)); return r; }
  BodiesToDegreesOfFreedom EvaluateAllDegreesOfFreedom(Instant const& t) const { BodiesToDegreesOfFreedom r; for (int i : {0, 1, 2}) r.emplace(list[i], trajectories[i].EvaluateDegreesOfFreedom(t)); return r; }
  // A linear field.
  virtual Vector<Acceleration, I> ComputeGravitationalAccelerationOnMasslessBody(Position<I> const& q, Instant const& t) const {
    auto const r = (q - I::origin).coordinates() / Metre;
    double const k = t == Instant() + 1 * Second ? 1 : 2;
    return Vector<Acceleration, I>({k * r.x * in[50] * Unit<Acceleration>, k * r.y * in[51] * Unit<Acceleration>, k * r.z * in[52] * Unit<Acceleration>});
  }
  Vector<Jerk, I> ComputeGravitationalJerkOnMasslessBody(DegreesOfFreedom<I> const& q, Instant const& t) const {
    return vec<Jerk, I>((t == Instant() + 1 * Second ? in : in + 100) + 9);
  }
  SpecificEnergy ComputeGravitationalPotential(Position<I> const& q, Instant const& t) const {
    auto const r = (q - I::origin).coordinates() / Metre;
    double const k = t == Instant() + 1 * Second ? 1 : 2;
    return k * (r.x * in[53] + r.y * in[54] + r.z * in[55]) * Unit<SpecificEnergy>;
  }
  virtual int serialization_index_for_body(not_null<MassiveBody const*> body) const { return index(body); }
  virtual not_null<MassiveBody const*> body_for_serialization_index(int i) const { return list[i]; }
  double const* in;
  ContinuousTrajectory<I> trajectories[3];
  MassiveBody const* list[3];
};
}
using principia::physics::_ephemeris::Ephemeris;
using principia::physics::_continuous_trajectory::ContinuousTrajectory;
// The inputs: the states of three bodies; at 36, their gravitational parameters; at 40 a position and a velocity in the
// frame; at 50 the field of gravity; from 100 onwards, the same at other times.
struct World {
  explicit World(double const* in) :
    b0(MassiveBody::Parameters("A", in[36] * Unit<GravitationalParameter>)),
    b1(MassiveBody::Parameters("B", in[37] * Unit<GravitationalParameter>)),
    b2(MassiveBody::Parameters("C", in[38] * Unit<GravitationalParameter>)),
    e(in, &b0, &b1, &b2) {}
  MassiveBody b0, b1, b2;
  Ephemeris<I> e;
};
static Instant const t = Instant() + 1 * Second;
"""


# Body-surface frames and fields.
SURFACE = """
using Rotating = principia::physics::_rotating_body::RotatingBody<I>;
struct Spinning {
  explicit Spinning(double const* in) :
    b0(MassiveBody::Parameters("A", in[36] * Unit<GravitationalParameter>),
       Rotating::Parameters(1 * Metre, in[60] * Radian, Instant() + in[61] * Second, in[62] * Radian / Second, in[63] * Radian, in[64] * Radian)),
    b1(MassiveBody::Parameters("B", in[37] * Unit<GravitationalParameter>)),
    e(in, &b0, &b1, nullptr) {}
  Rotating b0;
  MassiveBody b1;
  Ephemeris<I> e;
};
"""


class System:
    """The inputs of the probes, and the definitions of the frames."""
    def __init__(self, x, massless=False, barycentric=False, group=False, masses=None):
        self.x = x
        self.p = [x.var('p%d' % k) for k in range(12)]
        self.g, self.h = [x.var('g%d' % k) for k in range(3)], [x.var('h%d' % k) for k in range(3)]
        self.m = [x.var('m%d' % k) for k in range(4)]
        if masses:
            self.m = [x(k) for k in masses]
        if barycentric:
            # The barycentre is at p, and the total mass is m3.
            x.dom.positive |= {'m3'}
            if group:
                self.m[2] = self.m[3] - self.m[0] - self.m[1]
                m1 = self.m[1] + self.m[2]
            else:
                self.m[1] = m1 = self.m[3] - self.m[0]
            t = self.two = Two(x, self.m[3], masses is not None)
            rel = x.div(flat([t.fro(v) for v in t.rel]), self.m[3])
            first, second = x.sub(self.p, x.mul(m1, rel)), x.add(self.p, x.mul(self.m[0], rel))
        else:
            t = self.two = Two(x)
            if massless:
                # The acceleration of the primary is that of gravity there.
                self.p[6:9] = [a * b for a, b in zip(self.g, self.p[:3])]
            first, second = self.p, x.add(self.p, flat([t.fro(v) for v in t.rel]))
        self.point = [x.var('s%d' % k) for k in range(6)]
        self.bodies = [first, second, [x(0)] * 12]
        if group:
            # Two secondaries, whose barycentre is `second`.
            e = [x.var('e%d' % k) for k in range(12)]
            self.bodies = [first, x.add(second, x.mul(self.m[2], e)), x.sub(second, x.mul(self.m[1], e))]
        # At other times, everything is elsewhere.
        o = [x(k * k % 37 - 11) for k in range(12)]
        b = x.add(o, [x(k) for k in (2, 0, 0, 1, 3, 0, 4, 5, 6, 7, -8, 9)])
        junk = o + b + b + [x(0)] * 4
        self.inputs = flat(self.bodies) + self.m + self.point + [x(0)] * 4 + self.g + self.h + [x.var('k%d' % k) for k in range(44)] + junk

    def acceleration(self, q):
        return [a * b for a, b in zip(self.g, q)]

    def potential(self, q):
        return self.x.dot(self.h, q)

    def centred(self):
        return Frame_(self, self.p[:3], self.p[3:6], self.p[6:9], self.two.to, self.two.fro, self.two.omega, self.two.alpha)

class Frame_:
    """A rigid frame with a given motion."""
    def __init__(self, system, o, v, a, to, fro, omega, alpha):
        self.x, self.y = system.x, system
        self.o, self.v, self.a, self.to, self.fro, self.omega, self.alpha = o, v, a, to, fro, omega, alpha

    def motion(self, q, u):
        x = self.x
        r = self.to(x.sub(q, self.o))
        return [r, x.sub(self.to(x.sub(u, self.v)), x.cross(self.omega, r))]

    def back(self, q, u):
        x = self.x
        return [x.add(self.o, self.fro(q)), x.add(self.v, self.fro(x.add(u, x.cross(self.omega, q))))]

    def rotation_free(self, q):
        x = self.x
        g = self.y.acceleration(x.add(self.o, self.fro(q)))
        return x.sub(self.to(x.sub(g, self.a)), x.cross(self.omega, x.cross(self.omega, q)))

    def geometric(self, q, u):
        x = self.x
        return x.sub(x.sub(self.rotation_free(q), x.mul(2, x.cross(self.omega, u))), x.cross(self.alpha, q))

    def potential(self, q):
        x = self.x
        c = x.cross(self.omega, q)
        return self.y.potential(x.add(self.o, self.fro(q))) + x.dot(q, self.to(self.a)) - x.dot(c, c) / x(2)


class Pulsating:
    def __init__(self, system, rigid):
        t = system.two
        self.x, self.r, self.f = system.x, t.rho, rigid
        self.dr = t.vx
        self.ddr = t.a[0] + t.vy * t.vy / t.rho

    def motion(self, q, u):
        x = self.x
        r, v = self.f.motion(q, u)
        return [x.div(r, self.r), x.sub(x.div(v, self.r), x.mul(self.dr / (self.r * self.r), r))]

    def back(self, q, u):
        x = self.x
        return self.f.back(x.mul(self.r, q), x.add(x.mul(self.r, u), x.mul(self.dr, q)))

    def rotation_free(self, q):
        x = self.x
        return x.sub(x.div(self.f.rotation_free(x.mul(self.r, q)), self.r), x.mul(self.ddr / self.r, q))

    def geometric(self, q, u):
        x = self.x
        a = self.f.geometric(x.mul(self.r, q), x.add(x.mul(self.r, u), x.mul(self.dr, q)))
        return x.sub(x.sub(x.div(a, self.r), x.mul(self.ddr / self.r, q)), x.mul(x(2) * self.dr / self.r, u))

    def potential(self, q):
        x = self.x
        return self.ddr * x.dot(q, q) / (x(2) * self.r) + self.f.potential(x.mul(self.r, q)) / (self.r * self.r)


def of_frame(name, decl, system, frame, where, rigid=True, extra=None):
    """The obligations of one frame.  `frame(system)` is its definition."""
    obs = []

    def inputs(x):
        return system(x).inputs

    def ob(n, body, spec, **kw):
        obs.append(O(n + ' ' + name, decl + body, inputs, lambda x, i, spec=spec: (lambda y: spec(x, y, frame(y)))(system(x)), where=where, **kw))
    # The point of an inertial position and velocity, such that its image is short.
    ob('motion', 'w(out, f.ToThisFrameAtTimeSimilarly(t)(dof<I>(in + 40)));', lambda x, y, f: f.motion(y.point[:3], y.point[3:]))
    ob('inverse motion', 'w(out, f.FromThisFrameAtTimeSimilarly(t)(dof<T>(in + 40)));', lambda x, y, f: f.back(y.point[:3], y.point[3:]))
    if rigid:
        ob('rigid motion', 'w(out, f.ToThisFrameAtTime(t)(dof<I>(in + 40))); w(out + 6, f.FromThisFrameAtTime(t).orthogonal_map()(d<T>(in + 40)));',
           lambda x, y, f: [f.motion(y.point[:3], y.point[3:]), f.fro(y.point[:3])])
    ob('geometric acceleration', 'w(out, f.GeometricAcceleration(t, dof<T>(in + 40)));', lambda x, y, f: f.geometric(y.point[:3], y.point[3:]))
    ob('rotation free acceleration', 'w(out, f.RotationFreeGeometricAccelerationAtRest(t, x<T>(in + 40)));', lambda x, y, f: f.rotation_free(y.point[:3]))
    ob('geometric potential', 'out[0] = s(f.GeometricPotential(t, x<T>(in + 40)));', lambda x, y, f: [f.potential(y.point[:3])])
    # No state is left by evaluations at other times.
    ob('motion after another time', 'f.ToThisFrameAtTimeSimilarly(t + 1 * Second); w(out, f.ToThisFrameAtTimeSimilarly(t)(dof<I>(in + 40)));', lambda x, y, f: f.motion(y.point[:3], y.point[3:]))
    ob('acceleration after another time', 'f.GeometricAcceleration(t + 1 * Second, dof<T>(in + 40)); w(out, f.GeometricAcceleration(t, dof<T>(in + 40)));',
       lambda x, y, f: f.geometric(y.point[:3], y.point[3:]))
    ob('acceleration after motion', 'f.ToThisFrameAtTimeSimilarly(t); w(out, f.GeometricAcceleration(t, dof<T>(in + 40)));', lambda x, y, f: f.geometric(y.point[:3], y.point[3:]))
    return obs


class Spin:
    """A rotating body, oriented as the IAU does it."""
    def __init__(self, x, fixed=False):
        self.x = x
        self.p = [x.var('p%d' % k) for k in range(12)]
        self.g, self.h = [x.var('g%d' % k) for k in range(3)], [x.var('h%d' % k) for k in range(3)]
        self.point = [x.var('s%d' % k) for k in range(6)]
        ra, dec, angle, t0, w = (x.var(n) for n in ('right ascension', 'declination', 'angle', 't0', 'w'))
        for n, a in enumerate((ra, dec, angle)):
            x.dom.halved.add(x.dom.key(a))
            one_rule(x, a / x(2))
            if fixed and n < 2:
                # An arbitrary orientation.
                for f, v in zip(('cos', 'sin'), ((Fraction(12, 13), Fraction(5, 13)), (Fraction(15, 17), Fraction(-8, 17)))[n]):
                    x.dom.rules[x.dom.atom(f, a / x(2))] = (1, Poly.const(v))
        ca, sa, cd, sd, cw, sw = (x.dom.function(f, a) for a in (ra, dec, angle) for f in ('cos', 'sin'))
        z = x(0)
        self.pole = [cd * ca, cd * sa, sd]
        self.node = [-sa, ca, z]
        self.equator = x.cross(self.node, self.pole)
        third = x.cross(self.pole, self.node)
        prime = x.add(x.mul(cw, self.node), x.mul(sw, third))
        self.axes = [prime, x.cross(self.pole, prime), self.pole]
        self.w, self.angle = w, angle
        o = [x(k * k % 37 - 11) for k in range(12)]
        spin = [angle - w * (x(1) - t0), t0, w, ra, dec]
        self.inputs = self.p + [x.var('p%d' % k) for k in range(12, 24)] + [x(0)] * 12 + [x.var('m0'), x.var('m1'), z, z] + self.point + [z] * 4 + self.g + self.h + [z] * 4 + spin + [z] * 35 + o + o

    acceleration, potential = System.acceleration, System.potential

    def to(self, v):
        return [self.x.dot(a, v) for a in self.axes]

    def fro(self, v):
        x = self.x
        return x.add(x.add(*[x.mul(c, a) for c, a in zip(v[:2], self.axes)]), x.mul(v[2], self.axes[2]))

    def surface(self):
        z = self.x(0)
        return Frame_(self, self.p[:3], self.p[3:6], self.p[6:9], self.to, self.fro, [z, z, self.w], [z, z, z])

    def celestial(self):
        axes = [self.equator, self.node, self.pole]
        x = self.x
        z = x(0)
        return Frame_(self, self.p[:3], self.p[3:6], self.p[6:9], lambda v: [x.dot(a, v) for a in axes],
                      lambda v: x.add(x.add(*[x.mul(c, a) for c, a in zip(v[:2], axes)]), x.mul(v[2], axes[2])), [z] * 3, [z] * 3)


def spinning():
    S = 'Spinning const W(in); '
    obs = []
    wh = 'physics/rotating_body_body.hpp'

    def ob(name, body, spec, where=wh):
        obs.append(O(name, S + body, lambda x: Spin(x).inputs, lambda x, i: spec(x, Spin(x)), where=where))
    ob('polar axis', 'w(out, W.b0.polar_axis()); w(out + 3, W.b0.biequatorial()); w(out + 6, W.b0.equatorial());', lambda x, y: [y.pole, y.node, y.equator])
    ob('angular velocity', 'w(out, W.b0.angular_velocity()); out[3] = W.b0.AngleAt(t) / Radian;', lambda x, y: [x.mul(y.w, y.pole), [y.angle]])
    ob('surface axes', 'auto const f = W.b0.FromSurfaceFrame<T>(t); w(out, f(d<T>(in + 40)));', lambda x, y: y.fro(y.point[:3]))
    ob('to the surface', 'auto const f = W.b0.ToSurfaceFrame<T>(t); w(out, f(d<I>(in + 40)));', lambda x, y: y.to(y.point[:3]))
    ob('celestial axes', 'auto const f = W.b0.ToCelestialFrame<T>(); w(out, f(d<I>(in + 40)));', lambda x, y: y.celestial().to(y.point[:3]))
    obs += of_frame('surface', S + 'BodySurfaceReferenceFrame<I, T> const f(&W.e, &W.b0);', Spin, lambda y: y.surface(), 'physics/body_surface_reference_frame_body.hpp')
    obs += of_frame('celestial', S + 'BodyCentredNonRotatingReferenceFrame<I, T> const f(&W.e, &W.b0);', Spin, lambda y: y.celestial(), 'physics/body_centred_non_rotating_reference_frame_body.hpp')

    def point(x):
        """A point where the zenith and the pole are at a known angle."""
        y = Spin(x, fixed=True)
        r, c, s = (x.var(n) for n in ('rho', 'c', 's'))
        k, l = x(3) / x(5), x(4) / x(5)
        x.dom.positive |= {'rho', 'c'}
        x.dom.rules['c'] = (2, Poly.const(1) - Poly.var('s') * Poly.var('s'))
        out = x.add(x.mul(k, y.node), x.mul(l, y.equator))
        zenith = x.add(x.mul(s, y.pole), x.mul(c, out))
        north = x.sub(x.mul(c, y.pole), x.mul(s, out))
        i = list(y.inputs)
        i[40:43] = x.add(y.p[:3], x.mul(r, zenith))
        return i, north, x.cross(north, zenith), x.mul(-1, zenith)

    obs.append(O('navball', S + 'BodySurfaceFrameField<I, T> const f(W.e, t, &W.b0); auto const r = f.FromThisFrame(x<I>(in + 40)); w(out, r(d<T>(in + 43)));',
                 lambda x: point(x)[0], lambda x, i: (lambda p: x.add(x.add(x.mul(i[43], p[1]), x.mul(i[44], p[2])), x.mul(i[45], p[3])))(point(x)), where='physics/body_surface_frame_field_body.hpp'))
    return obs


def frenet():
    """The Frenet frame, in a frame which is itself rotating."""
    def system(x):
        y = System(x)
        t = y.two = Two(x, fixed=True)
        x.dom.positive |= {'speed', 'normal'}
        tangent, normal = [x(k) / x(3) for k in (1, 2, 2)], [x(k) / x(3) for k in (2, 1, -2)]
        y.tangent, y.normal = tangent, normal
        u = x.mul(x.var('speed'), tangent)
        y.point[3:] = u
        f = y.centred()
        at = f.geometric(y.point[:3], u)
        want = x.add(x.mul(x.var('along'), tangent), x.mul(x.var('normal'), normal))
        # The acceleration of the origin such that the geometric acceleration is the one that we want.
        a = x.sub(y.p[6:9], f.fro(x.sub(want, at)))
        y.p[6:9] = a
        i = list(y.inputs)
        i[:12] = y.p
        i[12:24] = x.add(y.p, flat([t.fro(v) for v in t.rel]))
        i[40:46] = y.point
        y.inputs = i
        return y
    return [O('frenet', 'World const W(in); BodyCentredBodyDirectionReferenceFrame<I, T> const f(&W.e, &W.b0, &W.b1); auto const r = f.FrenetFrame(t, dof<T>(in + 40));'
              'double const e[] = {1, 0, 0, 0, 1, 0, 0, 0, 1}; for (int k : {0, 3, 6}) w(out + k, r(vec<double, Frenet<T>>(e + k)));',
              lambda x: system(x).inputs, lambda x, i: (lambda y: [y.tangent, y.normal, x.cross(y.tangent, y.normal)])(system(x)), where='physics/reference_frame_body.hpp')]


def frames():
    d = 'physics/%s_reference_frame_body.hpp'
    obs = []
    W = 'World const W(in); '
    nonrotating = lambda y: Frame_(y, y.p[:3], y.p[3:6], y.p[6:9], lambda v: v, lambda v: v, [y.x(0)] * 3, [y.x(0)] * 3)
    obs += of_frame('bcnr', W + 'BodyCentredNonRotatingReferenceFrame<I, T> const f(&W.e, &W.b0);', System, nonrotating, d % 'body_centred_non_rotating')
    obs += of_frame('bcbd', W + 'BodyCentredBodyDirectionReferenceFrame<I, T> const f(&W.e, &W.b0, &W.b1);', System, lambda y: y.centred(), d % 'body_centred_body_direction')
    obs += of_frame('target', W + 'BodyCentredBodyDirectionReferenceFrame<I, T> const f(&W.e, std::function<Trajectory<I> const&()>([&W]() -> Trajectory<I> const& { return W.e.trajectories[0]; }), &W.b1);',
                    lambda x: System(x, massless=True), lambda y: y.centred(), d % 'body_centred_body_direction')
    obs += of_frame('barycentric', W + 'BarycentricRotatingReferenceFrame<I, T> const f(&W.e, &W.b0, &W.b1);', lambda x: System(x, barycentric=True), lambda y: y.centred(), d % 'barycentric_rotating')
    obs += of_frame('pulsating', W + 'RotatingPulsatingReferenceFrame<I, T> const f(&W.e, &W.b0, &W.b1);', lambda x: System(x, barycentric=True, masses=(3, 7, 1, 10)), lambda y: Pulsating(y, y.centred()), d % 'rotating_pulsating', rigid=False)
    g = 'std::vector<not_null<MassiveBody const*>>{&W.b0}, std::vector<not_null<MassiveBody const*>>{&W.b1, &W.b2});'
    obs += of_frame('barycentric group', W + 'BarycentricRotatingReferenceFrame<I, T> const f(&W.e, ' + g, lambda x: System(x, barycentric=True, group=True), lambda y: y.centred(), d % 'barycentric_rotating')
    return obs


def statics():
    obs = []
    wh = 'physics/rigid_reference_frame_body.hpp'

    def ob(name, n, body, spec, where=wh, **kw):
        obs.append(O(name, body, n, spec, where=where, **kw))
    tri = ('Probe::Trihedron<Length, ArealSpeed> o0; Probe::Trihedron<double, double> n0; Probe::Trihedron<Length, ArealSpeed, 1> o1; Probe::Trihedron<double, double, 1> n1;'
           'Probe::Trihedron<Length, ArealSpeed, 2> o2; Probe::Trihedron<double, double, 2> n2; Probe::trihedra(in, o0, n0, o1, n1, o2, n2);')

    def orthogonal(x, i):
        r, v, a, j = (v3(i, 3 * k) for k in range(4))
        c = x.cross
        b0, b1, b2 = c(r, v), c(r, a), x.add(c(v, a), c(r, j))
        return [r, c(b0, r), b0, v, x.add(c(b1, r), c(b0, v)), b1, a, x.add(x.add(c(b2, r), x.mul(2, c(b1, v))), c(b0, a)), b2]
    ob('trihedra', relative, tri + ''.join('w(out + %d, o%d.%s);' % (9 * k + 3 * j, k, n) for k in range(3) for j, n in enumerate(('fore', 'normal', 'binormal'))), orthogonal)

    def orthonormal(x, i):
        t = Two(x)
        w, al = t.omega, t.alpha
        e = x.eye(3)
        d1 = [x.cross(w, u) for u in e]
        d2 = [x.add(x.cross(al, u), x.cross(w, x.cross(w, u))) for u in e]
        return [t.fro(u) for u in e + d1 + d2]
    for k in range(3):
        ob('orthonormal trihedron %d' % k, relative, tri + ''.join('w(out + %d, n%d.%s);' % (3 * j, k, n) for j, n in enumerate(('fore', 'normal', 'binormal'))),
           lambda x, i, k=k: orthonormal(x, i)[3 * k:3 * k + 3])
    ob('angular velocity', relative, tri + 'w(out, Probe::velocity(n0, n1));', lambda x, i: Two(x).fro(Two(x).omega))
    ob('angular acceleration', relative, tri + 'w(out, Probe::acceleration(n0, n1, n2));', lambda x, i: Two(x).fro(Two(x).alpha))
    ob('angular degrees of freedom', pair, 'Probe::angular(in, out);', lambda x, i: [[Two(x).fro(e) for e in x.eye(3)], Two(x).fro(Two(x).omega)])
    return obs


def main(c):
    gs = {}
    for v, extra in VARIANTS.items():
        gs[('statics ' + v).strip()] = (PRELUDE, statics(), extra)
        gs[('rotating bodies ' + v).strip()] = (PRELUDE + MOCK + SURFACE, spinning() + frenet(), extra)
        gs[('frames ' + v).strip()] = (PRELUDE + MOCK, frames(), extra)
    run(c, gs)


if __name__ == '__main__':
    vlib.main(main, 'C14', 'other', RULE)
