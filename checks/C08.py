#!/usr/bin/env python3
import os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, '..', 'lib')]
import astlib, vlib
from vlib import Broken

RULE = ('The compiler decides, for every pair of types and every operator, whether the expression is well-formed and what '
        'its type is; the outcome is compared with an independent model of dimensions, affine spaces, frames and grades. '
        'Positive witnesses must have exactly the type of the model, negative ones must not compile.')

PRELUDE = r'''
#include <array>
#include <cstdint>
#include <type_traits>
#include <utility>
namespace verif {
using namespace principia::base::_tags;
using namespace principia::geometry::_affine_map;
using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_direct_sum;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_identity;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_linear_map;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_permutation;
using namespace principia::geometry::_point;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_signature;
using namespace principia::geometry::_space;
using namespace principia::geometry::_space_transformations;
using namespace principia::geometry::_symmetric_bilinear_form;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_rigid_motion;
using namespace principia::quantities::_dimensions;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;

using F1 = Frame<struct F1Tag, Inertial, Handedness::Right>;
using F2 = Frame<struct F2Tag, Inertial, Handedness::Right>;
using F3 = Frame<struct F3Tag, Arbitrary, Handedness::Right>;
using FL = Frame<struct FLTag, Inertial, Handedness::Left>;

template<typename F> constexpr long frame = 99;
template<> constexpr long frame<F1> = 1;
template<> constexpr long frame<F2> = 2;
template<> constexpr long frame<F3> = 3;
template<> constexpr long frame<FL> = 4;

using Code = std::array<std::int64_t, 24>;
template<typename T> struct X { static constexpr Code v{99}; };
template<> struct X<double> { static constexpr Code v{1}; };
template<> struct X<bool> { static constexpr Code v{10}; };
template<long A, long B, long C, long D, long E, long F, long G, long H>
struct X<Quantity<Dimensions<A, B, C, D, E, F, G, H>>> {
  static constexpr Code v{1, A, B, C, D, E, F, G, H};
};
constexpr Code wrap(std::int64_t a, std::int64_t b, std::int64_t c, Code const& in) {
  Code r{a, b, c};
  for (int i = 3; i < 24; ++i) r[i] = in[i - 3];
  return r;
}
template<typename S, typename F, int r>
struct X<Multivector<S, F, r>> { static constexpr Code v = wrap(2, frame<F>, r, X<S>::v); };
template<typename S, typename F, template<typename, typename> typename M>
struct X<SymmetricBilinearForm<S, F, M>> {
  static constexpr Code v = wrap(3, frame<F>, X<M<double, F>>::v[2], X<S>::v);
};
template<typename V> struct X<Point<V>> { static constexpr Code v = wrap(4, 0, 0, X<V>::v); };
template<typename A, typename B> struct X<DirectSum<A, B>> {
  static constexpr Code v = [] {
    Code r{5};
    for (int i = 1; i < 16; ++i) r[i] = X<A>::v[i - 1];
    for (int i = 16; i < 24; ++i) r[i] = X<B>::v[i - 16];
    return r;
  }();
};
template<typename A, typename B> struct X<Identity<A, B>> { static constexpr Code v{20, frame<A>, frame<B>}; };
template<typename A, typename B> struct X<Permutation<A, B>> { static constexpr Code v{21, frame<A>, frame<B>}; };
template<typename A, typename B> struct X<Signature<A, B>> { static constexpr Code v{22, frame<A>, frame<B>}; };
template<typename A, typename B> struct X<Rotation<A, B>> { static constexpr Code v{23, frame<A>, frame<B>}; };
template<typename A, typename B> struct X<OrthogonalMap<A, B>> { static constexpr Code v{24, frame<A>, frame<B>}; };
template<typename S, typename A, typename B>
struct X<ConformalMap<S, A, B>> { static constexpr Code v = wrap(25, frame<A>, frame<B>, X<S>::v); };
template<typename A, typename B> struct X<RigidMotion<A, B>> { static constexpr Code v{27, frame<A>, frame<B>}; };
template<typename A, typename B, typename S, template<typename, typename> class L>
struct X<AffineMap<A, B, S, L>> { static constexpr Code v = wrap(26, frame<A>, frame<B>, X<L<A, B>>::v); };

#define BINARY(name, expr) \
  template<typename A, typename B> constexpr Code name() { \
    if constexpr (requires(A& a, B const& b) { expr; }) { \
      return X<std::remove_cvref_t<decltype([](A& a, B const& b) -> decltype(auto) { return (expr); }(std::declval<A&>(), std::declval<B const&>()))>>::v; \
    } else { return Code{}; } \
  }
#define UNARY(name, expr) \
  template<typename A> constexpr Code name() { \
    if constexpr (requires(A const& a) { expr; }) { \
      return X<std::remove_cvref_t<decltype([](A const& a) -> decltype(auto) { return (expr); }(std::declval<A const&>()))>>::v; \
    } else { return Code{}; } \
  }
#define C(A) static_cast<std::add_const_t<A>&>
BINARY(add, std::as_const(a) + b)
BINARY(sub, std::as_const(a) - b)
BINARY(mul, std::as_const(a) * b)
BINARY(div, std::as_const(a) / b)
BINARY(eq, std::as_const(a) == b)
BINARY(ne, std::as_const(a) != b)
BINARY(lt, std::as_const(a) < b)
BINARY(ge, std::as_const(a) >= b)
BINARY(adda, a += b)
BINARY(suba, a -= b)
BINARY(asg, a = b)
BINARY(inner, InnerProduct(std::as_const(a), b))
BINARY(wedge, Wedge(std::as_const(a), b))
BINARY(commutator, Commutator(std::as_const(a), b))
BINARY(angle, AngleBetween(std::as_const(a), b))
BINARY(apply, std::as_const(a)(b))
UNARY(neg, -a)
UNARY(pos, +a)
template<typename A, typename B> constexpr Code convertible() { return Code{std::is_convertible_v<A, B>}; }
template<typename A, typename B> constexpr Code constructible() { return Code{std::is_constructible_v<B, A>}; }
template<typename A> constexpr Code code() { return X<A>::v; }
}
'''
INC = ['base/tags.hpp'] + ['geometry/%s.hpp' % h for h in (
    'affine_map', 'conformal_map', 'direct_sum', 'frame', 'grassmann', 'identity', 'instant', 'linear_map',
    'orthogonal_map', 'permutation', 'point', 'rotation', 'signature', 'space', 'space_transformations',
    'symmetric_bilinear_form')] + ['physics/degrees_of_freedom.hpp', 'physics/rigid_motion.hpp',
                                   'quantities/named_quantities.hpp', 'quantities/quantities.hpp']

# The model.  ('S', dims) | ('M', frame, rank, dims) | ('B', frame, rank, dims) | ('P', type) | ('D', type, type) |
# ('F', kind, from, to[, dims]) | ('b',)
Z = (0,) * 8
L = (1, 0, 0, 0, 0, 0, 0, 0)
T = (0, 0, 1, 0, 0, 0, 0, 0)
M = (0, 1, 0, 0, 0, 0, 0, 0)
SPEED = (1, 0, -1, 0, 0, 0, 0, 0)
ANG = (0, 0, 0, 0, 0, 0, 0, 1)
OMEGA = (0, 0, -1, 0, 0, 0, 0, 1)
VEC = {}
FR = {'F1': 1, 'F2': 2, 'F3': 3, 'FL': 4}
TYPES = {'double': ('S', Z), 'Length': ('S', L), 'Time': ('S', T), 'Speed': ('S', SPEED), 'Angle': ('S', ANG),
         'Instant': ('P', ('S', T)), 'Point<Length>': ('P', ('S', L))}
for f in ('F1', 'F2'):
    i = FR[f]
    TYPES['Displacement<%s>' % f] = ('M', i, 1, L)
    TYPES['Velocity<%s>' % f] = ('M', i, 1, SPEED)
    TYPES['Vector<double, %s>' % f] = ('M', i, 1, Z)
    TYPES['AngularVelocity<%s>' % f] = ('M', i, 2, OMEGA)
    TYPES['Bivector<Length, %s>' % f] = ('M', i, 2, L)
    TYPES['Trivector<Length, %s>' % f] = ('M', i, 3, L)
    TYPES['Position<%s>' % f] = ('P', ('M', i, 1, L))
    TYPES['Point<Velocity<%s>>' % f] = ('P', ('M', i, 1, SPEED))
    TYPES['DegreesOfFreedom<%s>' % f] = ('D', ('P', ('M', i, 1, L)), ('M', i, 1, SPEED))
    TYPES['RelativeDegreesOfFreedom<%s>' % f] = ('D', ('M', i, 1, L), ('M', i, 1, SPEED))
    TYPES['SymmetricBilinearForm<Length, %s, Vector>' % f] = ('B', i, 1, L)
    TYPES['SymmetricBilinearForm<Mass, %s, Bivector>' % f] = ('B', i, 2, M)
KINDS = {'Identity': 20, 'Permutation': 21, 'Signature': 22, 'Rotation': 23, 'OrthogonalMap': 24, 'RigidTransformation': 26,
         'RigidMotion': 27}
MAPS = {}
for k, n in KINDS.items():
    for a, b in (('F1', 'F2'), ('F2', 'F3'), ('F3', 'F1'), ('F1', 'F1'), ('F2', 'FL'), ('FL', 'F1')):
        if k in ('Identity', 'Rotation') and 'FL' in (a, b):
            continue
        MAPS['%s<%s, %s>' % (k, a, b)] = ('F', n, FR[a], FR[b])
for a, b in (('F1', 'F2'), ('F2', 'F3')):
    MAPS['ConformalMap<double, %s, %s>' % (a, b)] = ('F', 25, FR[a], FR[b], Z)


def pad(x):
    return tuple(x) + (0,) * (24 - len(x))


def code(t):
    if t is None:
        return pad(())
    if t[0] == 'S':
        return pad((1,) + t[1])
    if t[0] == 'b':
        return pad((10,))
    if t[0] == 'M':
        return pad(((2, t[1], t[2], 1) + t[3]))
    if t[0] == 'B':
        return pad(((3, t[1], t[2], 1) + t[3]))
    if t[0] == 'P':
        return pad((4, 0, 0) + code(t[1])[:21])
    if t[0] == 'D':
        return (5,) + code(t[1])[:15] + code(t[2])[:8]
    if t[0] == 'F':
        if t[1] == 25:
            return pad((25, t[2], t[3], 1) + t[4])
        if t[1] == 26:
            return pad((26, t[2], t[3], 24, t[2], t[3]))
        return pad((t[1], t[2], t[3]))


def diff(t):
    if t[0] == 'P':
        return t[1]
    if t[0] == 'D':
        return ('D', diff(t[1]), diff(t[2]))
    return t


def affine(t):
    return t[0] == 'P' or t[0] == 'D' and (affine(t[1]) or affine(t[2]))


plus = lambda a, b: tuple(x + y for x, y in zip(a, b))
minus = lambda a, b: tuple(x - y for x, y in zip(a, b))


def scale(t, f):
    if t[0] == 'S':
        return ('S', f(t[1]))
    if t[0] in 'MB':
        return (t[0], t[1], t[2], f(t[3]))
    if t[0] == 'D' and not affine(t):
        return ('D', scale(t[1], f), scale(t[2], f))
    return None


def model(op, a, b):
    """The type of the expression, or None if it must not compile, or 'any' if the model leaves it open."""
    if op in ('add', 'adda'):
        if not affine(a) and a == b:
            return a
        if affine(a) and diff(a) == b:
            return a
        if op == 'add' and affine(b) and diff(b) == a:
            return b
        return None
    if op in ('sub', 'suba'):
        if affine(a):
            return diff(a) if op == 'sub' and a == b else a if diff(a) == b else None
        return a if a == b else None
    if op == 'mul':
        if a[0] == 'S':
            return scale(b, lambda d: plus(a[1], d))
        if b[0] == 'S':
            return scale(a, lambda d: plus(d, b[1]))
        if {a[0], b[0]} == {'B', 'M'}:
            f, v = (a, b) if a[0] == 'B' else (b, a)
            return ('M', v[1], v[2], plus(f[3], v[3])) if f[1:3] == v[1:3] else None
        if a[0] == b[0] == 'M' and {a[2], b[2]} != {1} and 2 in (a[2], b[2]):
            # The action of bivectors on vectors, and the multiplication by trivectors.
            if a[1] != b[1]:
                return None
            return {(1, 2): ('M', a[1], 1, plus(a[3], b[3])), (2, 1): ('M', a[1], 1, plus(a[3], b[3])),
                    (2, 3): ('M', a[1], 1, plus(a[3], b[3])), (3, 2): ('M', a[1], 1, plus(a[3], b[3]))}.get((a[2], b[2]))
        if a[0] == b[0] == 'M' and {a[2], b[2]} == {1, 3}:
            return ('M', a[1], 2, plus(a[3], b[3])) if a[1] == b[1] else None
        return None
    if op == 'div':
        if b[0] == 'S':
            return scale(a, lambda d: minus(d, b[1]))
        if b[0] == 'B' and a[0] == 'M':
            return ('M', a[1], a[2], minus(a[3], b[3])) if a[1:3] == b[1:3] else None
        return None
    if op in ('eq', 'ne'):
        return ('b',) if a == b else None
    if op in ('lt', 'ge'):
        if a != b:
            return None
        if a[0] == 'S' or a[0] == 'P' and a[1][0] == 'S':
            return ('b',)
        return None
    if op == 'asg':
        return a if a == b else None
    if op == 'inner':
        if a[0] == 'S' and b[0] == 'S':
            return 'any'
        if a[0] == 'D' and b[0] == 'D':
            return 'any'
        if a[0] == b[0] == 'M' and a[1:3] == b[1:3]:
            return ('S', plus(a[3], b[3]))
        if a[0] == b[0] == 'M' and a[1] == b[1] and (a[2], b[2]) == (1, 1):
            return ('S', plus(a[3], b[3]))
        return None
    if op == 'wedge':
        if a[0] == b[0] == 'M' and a[1] == b[1] and a[2] + b[2] <= 3:
            return ('M', a[1], a[2] + b[2], plus(a[3], b[3]))
        return None
    if op == 'commutator':
        return ('M', a[1], 2, plus(a[3], b[3])) if a[0] == b[0] == 'M' and a[1] == b[1] and a[2] == b[2] == 2 else None
    if op == 'angle':
        if a[0] == b[0] == 'M' and a[1] == b[1] and a[2] == b[2] and a[2] in (1, 2):
            return ('S', ANG)
        return None
    raise Broken(op)


def reframe(t, f):
    if t[0] in 'MB':
        return (t[0], f) + t[2:]
    if t[0] == 'P':
        return ('P', reframe(t[1], f))
    if t[0] == 'D':
        return ('D', reframe(t[1], f), reframe(t[2], f))
    return t


def describe(t):
    if t is None:
        return 'must not compile'
    return 'has the type %r' % (t,)


def frames(t):
    if t[0] in 'MB':
        return {t[1]}
    if t[0] == 'P':
        return frames(t[1])
    if t[0] == 'D':
        return frames(t[1]) | frames(t[2])
    return set()


def check(c):
    ex, want = {}, {}

    def ask(expr, w, what, key):
        s = 'w%d' % len(ex)
        ex[s] = ('verif::Code', 'verif::' + expr)
        want[s] = (w, what, key)

    # Maps are spelled inside the namespace.
    q = lambda t: re.sub(r'\b([A-Z]\w*)\b(?!\s*::)', r'verif::\1', t)
    for n, t in TYPES.items():
        ask('code<%s>()' % q(n), t, 'the type ' + n, n)
    for an, a in TYPES.items():
        for op in ('neg', 'pos'):
            w = None if affine(a) else a
            ask('%s<%s>()' % (op, q(an)), w, '%s of %s' % (op, an), '%s:%s' % (op, an))
        for bn, b in TYPES.items():
            for op in ('add', 'sub', 'mul', 'div', 'eq', 'ne', 'lt', 'ge', 'adda', 'suba', 'asg', 'inner', 'wedge',
                       'commutator', 'angle'):
                w = model(op, a, b)
                if w == 'any':
                    continue
                if op in ('mul', 'div') and 'B' in (a[0], b[0]) and not w:
                    # The rejection is a hard error, not a substitution failure: it cannot be witnessed.
                    continue
                ask('%s<%s, %s>()' % (op, q(an), q(bn)), w, '%s of %s and %s' % (op, an, bn), '%s:%s:%s' % (op, an, bn))
            ask('convertible<%s, %s>()' % (q(an), q(bn)), ('raw', (1 if a == b else 0,)),
                'implicit conversion from %s to %s' % (an, bn), 'convertible:%s:%s' % (an, bn))
            if 'D' not in (a[0], b[0]):
                ask('constructible<%s, %s>()' % (q(an), q(bn)), ('raw', (1 if a == b or b[0] == 'M' and b[2] == 3 and a == ('S', b[3]) else 0,)),
                    'explicit conversion from %s to %s' % (an, bn), 'constructible:%s:%s' % (an, bn))
    for an, a in MAPS.items():
        for bn, b in MAPS.items():
            if a[1] != b[1]:
                continue
            w = ('F', a[1], b[2], a[3]) + ((plus(a[4], b[4]),) if a[1] == 25 else ()) if a[2] == b[3] else None
            if w and 4 in w[2:4] and a[1] in (20, 23):
                continue
            ask('mul<%s, %s>()' % (q(an), q(bn)), w, 'composition of %s and %s' % (an, bn), 'compose:%s:%s' % (an, bn))
            if an != bn:
                ask('convertible<%s, %s>()' % (q(an), q(bn)), ('raw', (0,)),
                    'implicit conversion from %s to %s' % (an, bn), 'convertible:%s:%s' % (an, bn))
        for bn, b in TYPES.items():
            if a[1] in (20, 21, 22, 23, 24):
                if b[0] == 'M' or b[0] == 'B':
                    w = reframe(b, a[3]) if b[1] == a[2] else None
                    if b[0] == 'B' and (b[2] == 2 or a[1] in (21, 22)):
                        continue
                elif b[0] == 'D' and not affine(b):
                    w = 'any'
                elif b[0] == 'S':
                    w = 'any'
                else:
                    w = None
            elif a[1] == 26:
                w = reframe(b, a[3]) if b[0] == 'P' and frames(b) == {a[2]} and b[1][3] == L else None
            elif a[1] == 27:
                w = reframe(b, a[3]) if b[0] == 'D' and affine(b) and frames(b) == {a[2]} else None
            else:
                continue
            if w == 'any':
                continue
            ask('apply<%s, %s>()' % (q(an), q(bn)), w, '%s applied to %s' % (an, bn), 'apply:%s:%s' % (an, bn))
    got = astlib.constants(INC, ex, prelude=PRELUDE)
    pos = neg = 0
    for s, (w, what, key) in want.items():
        g = tuple(got[s] or ())
        g = pad(g)
        raw = pad(w[1]) if w and w[0] == 'raw' else code(w)
        if any(raw):
            pos += 1
        else:
            neg += 1
        c.obligation(1, what)
        if g != raw:
            c.violation(key, what, '%s %s, but the compiler %s' % (
                what, describe(w), 'rejects it' if not any(g) else 'gives it the type code %s' % (g,)))
    c.require('positive witnesses', pos, 400)
    c.require('negative witnesses', neg, 5000)


vlib.main(check, 'C08', 'other', RULE)
