#!/usr/bin/env python3
"""C17: the integrators carry out the steps of their methods."""
import os, sys
from fractions import Fraction as Fr
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'), os.path.dirname(os.path.abspath(__file__))]
import vlib
from algebra import Obligation as O, flat, run
from C12 import VARIANTS
from irval import exact_root

SHIM = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'shims', 'stopped')

RULE = ('Each integrator, compiled to LLVM IR for an equation whose right-hand side returns arbitrary values, and abstracted to '
        'rational functions of these values and of the initial state, evaluates the right-hand side, appends states, and returns as '
        'its method prescribes.')

PRELUDE = '''
#include "integrators/integrators.hpp"
#include "integrators/methods.hpp"
#include "integrators/ordinary_differential_equations.hpp"
#include "integrators/%s.hpp"
using namespace principia::geometry::_instant;
using namespace principia::integrators::_integrators;
using namespace principia::integrators::_methods;
using namespace principia::integrators::_ordinary_differential_equations;
using namespace principia::integrators::_%s;
using namespace principia::numerics::_double_precision;
using namespace principia::numerics::_fixed_arrays;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
namespace serialization = principia::serialization;
template<typename Q> static double s(Q const& x) { return x / Unit<Q>; }
static double s(double x) { return x; }
static double s(Instant const& t) { return s(t - Instant()); }
static Instant at(double t) { return Instant() + t * Second; }
// The messages are not analysed.
namespace principia::geometry::_point::internal { std::string DebugString(Instant const&) { return ""; } }
// What we need of Abseil's statuses; those that we use have no message.
namespace absl { ABSL_NAMESPACE_BEGIN
Status::Status(StatusCode code, string_view) : rep_(CodeToInlinedRep(code)) {}
StatusCode Status::code() const { return InlinedRepToCode(rep_); }
int Status::raw_code() const { return (int)InlinedRepToCode(rep_); }
bool IsAborted(Status const& s) { return s.code() == StatusCode::kAborted; }
bool IsCancelled(Status const& s) { return s.code() == StatusCode::kCancelled; }
Status CancelledError(string_view m) { return Status(StatusCode::kCancelled, m); }
void Status::UnrefNonInlined(uintptr_t) {}
ABSL_NAMESPACE_END
}
// A log of the evaluations of the right-hand side (1) and of the states appended (2), each with its time and values.
static double* entry;
static double* log_end;
static double entries;
static double calls;
static double const* values;
static const double never = -100;
static int const* codes;
static void put(double x) { if (entry != log_end) { *entry++ = x; } }
static absl::Status call() { return absl::Status((absl::StatusCode)codes[(int)calls++], ""); }
// out: the number of entries, the number of evaluations, the final status, the final state, then the log.
'''


class Log:
    "What is expected of an integrator."

    def __init__(self, x, values, codes):
        self.x, self.values, self.codes = x, values, codes
        self.log, self.entries, self.calls, self.status = [], 0, 0, 0

    def update(self, s):
        if not self.status:
            self.status = s

    def evaluate(self, *arguments):
        "Returns the status and values of the right-hand side."
        d = self.d
        self.log += [self.x(1)] + [self.x(a) for a in arguments]
        self.entries += 1
        k = self.calls
        self.calls += 1
        return self.codes[k], self.values[k * d:k * d + d]

    def append(self, *arguments):
        self.log += [self.x(2)] + [self.x(a) for a in arguments]
        self.entries += 1

    def result(self, state):
        return [self.x(self.entries), self.x(self.calls), self.x(self.status)] + [self.x(a) for a in state] + self.log


def lower(rows):
    return ', '.join(str(float(a)) for r in rows for a in r)


def array(a):
    return '{{{' + ', '.join(repr(float(x)) for x in a) + '}}}'


SECOND = '''
using D = %s<Length>;
static const int N = DIMENSION;
static absl::Status f(Instant const& t, std::vector<Length> const& q, %s std::vector<Acceleration>& a) {
  ++entries;
  put(1); put(s(t));
  for (auto const& x : q) { put(s(x)); }
  %s
  for (int i = 0; i < a.size(); ++i) { a[i] = values[(int)calls * N + i] * Unit<Acceleration>; }
  return call();
}
static void state(D::State const& s_) {
  put(s(s_.time.value)); put(s(s_.time.error));
  for (auto const& x : s_.positions) { put(s(x.value)); put(s(x.error)); }
  for (auto const& x : s_.velocities) { put(s(x.value)); put(s(x.error)); }
}
static void append(D::State const& s) { ++entries; --stop; put(2); state(s); }
// in: the positions, the velocities, the accelerations.
static InitialValueProblem<D> problem(double t, double const* in, double* out, int const* c, int n) {
  values = in + 2 * N;
  codes = c;
  entries = 0;
  calls = 0;
  stop = never;
  entry = out + 5 + 4 * N;
  log_end = out + n;
  InitialValueProblem<D> p;
  p.equation.compute_acceleration = f;
  std::vector<Length> q; std::vector<Speed> v;
  for (int i = 0; i < N; ++i) { q.push_back(in[i] * Metre); v.push_back(in[N + i] * (Metre / Second)); }
  p.initial_state = D::State(at(t), q, v);
  return p;
}
static void finish(absl::Status const& status, D::State const& s, double* out) {
  out[0] = entries; out[1] = calls; out[2] = (int)status.code();
  entry = out + 3; log_end = out + 5 + 4 * N;
  state(s);
}
'''
SPECIAL = '\n#define DIMENSION %d\n' + SECOND % ('SpecialSecondOrderDifferentialEquation', '', '')
GENERAL = '\n#define DIMENSION %d\n' + SECOND % ('ExplicitSecondOrderOrdinaryDifferentialEquation', 'std::vector<Speed> const& v,', 'for (auto const& x : v) { put(s(x)); }')


def state(t, q, v):
    return [t, 0] + [y for x in q + v for y in (x, 0)]


SRKN = PRELUDE % (('symplectic_runge_kutta_nyström_integrator',) * 2) + SPECIAL % 2 + '''
template<serialization::FixedStepSizeIntegrator::CompositionMethod c, bool reversible, int n> struct M_ : SymplecticRungeKuttaNyström {
  static constexpr int order = 4;
  static constexpr bool time_reversible = reversible;
  static constexpr int stages = n;
  static constexpr CompositionMethod composition = c;
  static constexpr int evaluations = composition == BA ? n : n - 1;
  static constexpr serialization::FixedStepSizeIntegrator::Kind kind = serialization::FixedStepSizeIntegrator::MCLACHLAN_ATELA_1992_ORDER_4_OPTIMAL;
};
'''
METHODS = {
    'BA': ('BA', False, [Fr(1, 4), Fr(-1, 2), Fr(5, 4)], [Fr(3, 8), Fr(1, 2), Fr(1, 8)]),
    'ABA': ('ABA', False, [Fr(1, 4), Fr(-1, 2), Fr(5, 4)], [0, Fr(3, 8), Fr(5, 8)]),
    'BAB': ('BAB', False, [Fr(3, 4), Fr(1, 4), 0], [Fr(1, 8), Fr(3, 4), Fr(1, 8)]),
    'ABAr': ('ABA', True, [Fr(1, 4), Fr(1, 2), Fr(1, 4)], [0, Fr(1, 2), Fr(1, 2)]),
    'BABr': ('BAB', True, [Fr(1, 2), Fr(1, 2), 0], [Fr(1, 8), Fr(3, 4), Fr(1, 8)]),
}
for m, (c, r, a, b) in METHODS.items():
    SRKN += ('struct M%s : M_<serialization::FixedStepSizeIntegrator::%s, %s, %d> {\n  static constexpr FixedVector<double, %d> a%s;\n  static constexpr FixedVector<double, %d> b%s;\n};\n'
             % (m, c, 'true' if r else 'false', len(a), len(a), array(a), len(b), array(b)))
SRKN += '''
template<typename M> static void srkn(double t, double h, std::initializer_list<double> ends, double const* in, double* out, int const* c, int n, int stopped) {
  principia::integrators::_symplectic_runge_kutta_nyström_integrator::internal::SymplecticRungeKuttaNyströmIntegrator<M, D> const integrator;
  auto const instance = integrator.NewInstance(problem(t, in, out, c, n), append, h * Second);
  absl::Status status;
  stop = stopped;
  for (double e : ends) { status = instance->Solve(at(e)); }
  finish(status, instance->state(), out);
}
'''
OK, CANCELLED, FAILED_PRECONDITION, RESOURCE_EXHAUSTED, ABORTED, OTHER, ANOTHER = 0, 1, 9, 8, 10, 11, 3


class Dry:
    def __call__(self, a):
        return a


def scenario(name, body, inputs, spec, where, codes):
    "The body takes the statuses, the length of the log, and the number of states appended before the thread is stopped."
    cs = [codes.get(k, 0) for k in range(100)]
    dry = spec(cs)(Dry(), [0] * 500)
    return O(name, 'static int const c[] = {%s}; ' % ', '.join(map(str, cs)) + body.replace('$', 'in, out, c, %d' % len(dry)), inputs(dry[1]), spec(cs), nout=len(dry), where=where, limit=4)


# Name, initial time, step, final times, statuses, number of states appended before the thread is stopped.
FIXED = (('one step', 3, Fr(1, 4), [3 + Fr(1, 4)], {}, -1), ('two steps', -1, Fr(1, 2), [Fr(1, 4)], {}, -1), ('backward', 1, Fr(-1, 4), [Fr(3, 8)], {}, -1),
         ('no step', 3, Fr(1, 2), [3 + Fr(3, 8)], {}, -1), ('twice', 0, Fr(1, 2), [Fr(3, 4), 2], {}, -1),
         ('error', 0, Fr(1, 2), [1], {2: OTHER, 3: ANOTHER}, -1), ('aborted', 0, Fr(1, 2), [2], {1: ABORTED}, -1), ('aborted later', 0, Fr(1, 2), [3], {4: ABORTED}, -1),
         ('aborted after error', 0, Fr(1, 2), [1], {0: OTHER, 1: ABORTED}, -1), ('stopped', 0, Fr(1, 2), [2], {}, 2), ('stopped, twice', 0, Fr(1, 2), [2, 3], {}, 1))


def fixed(t, h, ends, stopped, codes, dimension, initial, step, state, initialize=None):
    "The spec of a fixed-step integrator.  initial(i): the state and where the values start.  step(log, t, y, h, g): the new y and g."
    def solve(x, i):
        y, values = initial(i)
        log = Log(x, values, codes)
        log.d = dimension
        now, appended = t, 0
        for end in ends:
            log.status = 0
            g = initialize(log, now, y) if initialize else None
            while abs(end - now) >= abs(h) and (end - now) * h > 0:
                y, g = step(log, now, y, h, g)
                now += h
                log.append(*state(now, y))
                appended += 1
                if appended == stopped:
                    log.status = CANCELLED
                    break
                if log.status == ABORTED:
                    break
        return log.result(state(now, y))
    return solve


def srkn():
    obs = []
    N = 2
    for m, (kind, _, a, b) in METHODS.items():
        def initialize(log, now, y):
            s, g = log.evaluate(now, *y[0])
            log.update(s)
            return g

        def step(log, now, y, h, g, kind=kind, a=a, b=b):
            q, v = y
            c = 0
            for j in range(len(a)):
                if not (kind == 'ABA' and j == 0):
                    # The first evaluation of a step of a BAB method is the last one of the preceding step.
                    if not (kind == 'BAB' and j == 0):
                        s, g = log.evaluate(now + c * h, *q)
                        log.update(s)
                    v = [v[k] + h * b[j] * g[k] for k in range(N)]
                q = [q[k] + h * a[j] * v[k] for k in range(N)]
                c += a[j]
            return (q, v), g

        for name, t, h, ends, codes, stopped in FIXED:
            obs.append(scenario('%s, %s' % (m, name), 'srkn<M%s>(%s, %s, {%s}, $, %d);' % (m, float(t), float(h), ', '.join(str(float(e)) for e in ends), stopped),
                                lambda calls: 2 * N + N * calls,
                                lambda cs, step=step, t=t, h=h, ends=ends, stopped=stopped, kind=kind: fixed(t, h, ends, stopped, cs, N, lambda i: ((i[:N], i[N:2 * N]), i[2 * N:]), step, lambda t, y: state(t, *y), initialize if kind == 'BAB' else None),
                                'integrators/symplectic_runge_kutta_nyström_integrator_body.hpp', codes))
    return obs


FIRST = '''
#define DIMENSION 2
using D = ExplicitFirstOrderOrdinaryDifferentialEquation<Instant, Length, Speed>;
static const int N = DIMENSION;
static absl::Status f(Instant const& t, D::DependentVariables const& y, D::DependentVariableDerivatives& f) {
  ++entries;
  put(1); put(s(t)); put(s(get<0>(y))); put(s(get<1>(y)));
  get<0>(f) = values[(int)calls * N] * Unit<Speed>;
  get<1>(f) = values[(int)calls * N + 1] * Unit<Acceleration>;
  return call();
}
static void state(D::State const& s_) {
  put(s(s_.s.value)); put(s(s_.s.error));
  put(s(get<0>(s_.y).value)); put(s(get<0>(s_.y).error)); put(s(get<1>(s_.y).value)); put(s(get<1>(s_.y).error));
}
static void append(D::State const& s) { ++entries; --stop; put(2); state(s); }
// in: the initial state, the values of the derivative.
static InitialValueProblem<D> problem(double t, double const* in, double* out, int const* c, int n) {
  values = in + N;
  codes = c;
  entries = 0;
  calls = 0;
  stop = never;
  entry = out + 5 + 2 * N;
  log_end = out + n;
  InitialValueProblem<D> p;
  p.equation.compute_derivative = f;
  p.initial_state = D::State(at(t), D::DependentVariables(in[0] * Metre, in[1] * (Metre / Second)));
  return p;
}
static void finish(absl::Status const& status, D::State const& s, double* out) {
  out[0] = entries; out[1] = calls; out[2] = (int)status.code();
  entry = out + 3; log_end = out + 5 + 2 * N;
  state(s);
}
'''


def first_state(t, y):
    return [t, 0] + [z for x in y for z in (x, 0)]


def triangle(a):
    "A strictly lower triangular matrix."
    return array([x for r in a for x in r])


# Some methods with first-same-as-last.
ERK_METHODS = {
    'Plain': (False, [0, Fr(1, 2), Fr(3, 4)], [[], [Fr(1, 2)], [Fr(-1, 4), 1]], [Fr(1, 4), Fr(5, 8), Fr(1, 8)], [Fr(1, 8), Fr(1, 2), Fr(3, 8)]),
    'Fsal': (True, [0, Fr(1, 2), 1], [[], [Fr(1, 2)], [Fr(1, 4), Fr(3, 4)]], [Fr(1, 4), Fr(3, 4), 0], [Fr(1, 8), Fr(1, 2), Fr(3, 8)]),
    'Single': (False, [0], [[]], [1], [Fr(1, 2)]),
}


def erk_methods(base, fixed):
    r = ''
    for m, (fsal, c, a, b, low) in ERK_METHODS.items():
        n = len(c)
        if n == 1 and not fixed:
            continue
        r += 'struct M%s : %s {\n  static constexpr int order = 3;\n  static constexpr int higher_order = 4;\n  static constexpr int lower_order = 3;\n  static constexpr int stages = %d;\n  static constexpr bool first_same_as_last = %s;\n' % (m, base, n, 'true' if fsal else 'false')
        if fixed:
            r += '  static constexpr serialization::FixedStepSizeIntegrator::Kind kind = serialization::FixedStepSizeIntegrator::KUTTA_1901_V_SIGMA1;\n'
        else:
            r += '  static constexpr serialization::AdaptiveStepSizeIntegrator::Kind kind = serialization::AdaptiveStepSizeIntegrator::DORMAND_PRINCE_1986_RK_547FC;\n'
        r += '  static constexpr FixedVector<double, %d> c%s;\n' % (n, array(c))
        r += '  static constexpr FixedStrictlyLowerTriangularMatrix<double, %d> a%s;\n' % (n, triangle(a) if n > 1 else '')
        r += '  static constexpr FixedVector<double, %d> %s%s;\n' % (n, 'b' if fixed else 'b̂', array(b))
        if not fixed:
            r += '  static constexpr FixedVector<double, %d> b%s;\n' % (n, array(low))
        r += '};\n'
    return r


ERK = PRELUDE % (('explicit_runge_kutta_integrator',) * 2) + FIRST + erk_methods('ExplicitRungeKutta', True) + '''
template<typename M> static void erk(double t, double h, std::initializer_list<double> ends, double const* in, double* out, int const* c, int n, int stopped) {
  principia::integrators::_explicit_runge_kutta_integrator::internal::ExplicitRungeKuttaIntegrator<M, D> const integrator;
  auto const instance = integrator.NewInstance(problem(t, in, out, c, n), append, h * Second);
  absl::Status status;
  stop = stopped;
  for (double e : ends) { status = instance->Solve(at(e)); }
  finish(status, instance->state(), out);
}
'''


def combine(y, h, coefficients, ks):
    return [y[d] + sum((h * c * k[d] for c, k in zip(coefficients, ks)), 0) for d in range(len(y))]


def erk():
    obs = []
    N = 2
    for m, (fsal, c, a, b, _) in ERK_METHODS.items():
        def initialize(log, now, y):
            s, g = log.evaluate(now, *y)
            log.update(s)
            return g

        def step(log, now, y, h, g, fsal=fsal, c=c, a=a, b=b):
            ks = []
            for j in range(len(c)):
                if not (fsal and j == 0):
                    s, g = log.evaluate(now + c[j] * h, *combine(y, h, a[j], ks))
                    log.update(s)
                ks.append(g)
            return combine(y, h, b, ks), g

        for name, t, h, ends, codes, stopped in FIXED:
            obs.append(scenario('%s, %s' % (m, name), 'erk<M%s>(%s, %s, {%s}, $, %d);' % (m, float(t), float(h), ', '.join(str(float(e)) for e in ends), stopped),
                                lambda calls: N + N * calls,
                                lambda cs, step=step, t=t, h=h, ends=ends, stopped=stopped, fsal=fsal: fixed(t, h, ends, stopped, cs, N, lambda i: (i[:N], i[N:]), step, first_state, initialize if fsal else None),
                                'integrators/explicit_runge_kutta_integrator_body.hpp', codes))
    return obs


TOLERANCE = '''
static double const* ratios;
static double tolerance(Time const& h, D::State const& s_, D::State::Error const& e) {
  ++entries;
  put(3); put(s(h)); state(s_);
  %s
  return *ratios++;
}
template<typename I, typename S> static void adaptive(double t, double h, std::initializer_list<double> ends, std::int64_t max_steps, bool exact, double const* r, double const* in, double* out, int const* c, int n, int stopped) {
  I const integrator;
  ratios = r;
  auto const instance = integrator.NewInstance(problem(t, in, out, c, n), append, tolerance, typename I::Parameters(h * Second, /*safety_factor=*/0.5, max_steps, exact));
  absl::Status status;
  stop = stopped;
  for (double e : ends) { status = instance->Solve(at(e)); }
  finish(status, instance->state(), out);
}
'''
# Name, initial time, step, final times, maximal number of steps, is the last step exact, ratios, statuses, number of states appended before the thread is stopped.
# The fourth roots of the ratios are rational; the other ones leave the step unchanged.
SAME, DOUBLE, REJECT = 16, 256, Fr(1, 16)
INFINITE = 2 ** 63 - 1
ADAPTIVE = (
    ('one step', 3, Fr(1, 4), [3 + Fr(1, 4)], INFINITE, True, [1], {}, -1),
    ('clipped', 3, Fr(1, 2), [3 + Fr(1, 4)], INFINITE, True, [1], {}, -1),
    ('clipped, backward', 3, Fr(-1, 2), [3 - Fr(1, 4)], INFINITE, True, [1], {}, -1),
    ('three steps', -1, Fr(1, 2), [Fr(1, 4)], INFINITE, True, [SAME, SAME, 1], {}, -1),
    ('backward', 1, Fr(-1, 2), [Fr(-1, 4)], INFINITE, True, [SAME, SAME, 1], {}, -1),
    ('growing', 0, Fr(1, 2), [Fr(3, 2)], INFINITE, True, [DOUBLE, 1], {}, -1),
    ('rejected', 0, Fr(1, 2), [Fr(1, 2)], INFINITE, True, [REJECT], {}, -1),
    ('rejected twice', 0, 1, [2], INFINITE, True, [REJECT, REJECT, DOUBLE, DOUBLE, DOUBLE, DOUBLE, DOUBLE], {}, -1),
    ('clipped, then rejected', 0, Fr(1, 2), [Fr(3, 4)], INFINITE, True, [SAME, REJECT, 2 ** 16, 1], {}, -1),
    ('rejected, backward', 0, Fr(-1, 2), [Fr(-1, 2)], INFINITE, True, [REJECT], {}, -1),
    ('too many steps', 0, Fr(1, 4), [2], 2, True, [SAME, SAME], {}, -1),
    ('too many steps, twice', 0, Fr(1, 4), [2, 3], 2, False, [], {}, -1),
    ('last step', 0, Fr(1, 2), [1], 2, True, [SAME, SAME], {}, -1),
    ('not exact', 0, Fr(1, 4), [Fr(5, 8)], INFINITE, False, [], {}, -1),
    ('not exact, backward', 0, Fr(-1, 4), [Fr(-5, 8)], INFINITE, False, [], {}, -1),
    ('not exact, reached', 0, Fr(1, 4), [Fr(1, 2)], INFINITE, False, [], {}, -1),
    ('not exact, twice', 0, Fr(1, 4), [Fr(5, 8), 1], INFINITE, False, [SAME, SAME, SAME, REJECT, SAME, DOUBLE, SAME, SAME], {}, -1),
    ('not exact, rejected', 0, Fr(1, 4), [Fr(5, 8)], INFINITE, False, [SAME, REJECT, SAME, SAME, SAME, SAME], {}, -1),
    ('error', 0, Fr(1, 4), [Fr(3, 4)], INFINITE, True, [], {4: OTHER, 5: ANOTHER}, -1),
    ('moot error', 0, Fr(1, 2), [1], INFINITE, True, [SAME, REJECT, SAME, SAME, SAME], {4: OTHER}, -1),
    ('moot abortion', 0, Fr(1, 2), [1], INFINITE, True, [SAME, REJECT, SAME, SAME, SAME], {4: ABORTED}, -1),
    ('aborted', 0, Fr(1, 4), [Fr(3, 4)], INFINITE, True, [], {4: ABORTED}, -1),
    ('aborted at once', 0, Fr(1, 4), [Fr(3, 4)], INFINITE, True, [], {1: ABORTED}, -1),
    ('stopped', 0, Fr(1, 4), [Fr(3, 4)], INFINITE, True, [], {}, 2),
)


def adaptive(sc, codes, dimension, initial, method, state, abort=True, initialize=None):
    "The spec of an adaptive integrator.  method(log, t, y, h, g, end): the new y, the error, the new g and a status.  end is either None or the end of the step."
    _, t, first_step, ends, max_steps, exact, ratios, _, stopped = sc

    def solve(x, i):
        y, values = initial(i)
        log = Log(x, values, codes)
        log.d = dimension
        now, appended, h = t, 0, first_step
        ratio = iter(ratios)
        for end in ends:
            log.status = 0
            g = None
            steps = 0
            if initialize:
                g = initialize(log, now, y)
            while True:
                # A step, repeated until it is accepted.
                r = None
                while r is None or r < 1:
                    if r is not None:
                        h *= Fr(1, 2) * exact_root(r, 4)
                    last = exact and abs(h) >= abs(end - now)
                    if last:
                        h = end - now
                    z, error, f, status, g = method(log, now, y, h, g, last)
                    log.log += [x(3), x(h)] + [x(a) for a in state(now, y)] + [x(a) for a in error]
                    log.entries += 1
                    r = next(ratio, SAME)
                log.update(status)
                if not exact and abs(h) > abs(end - now):
                    break
                before = now, y
                now, y, g = now + h, z, f
                log.append(*state(now, y))
                appended += 1
                steps += 1
                if appended == stopped:
                    log.status = CANCELLED
                    break
                if abort and status == ABORTED:
                    log.status = ABORTED
                    break
                if last:
                    # The integration may be restarted from the beginning of the truncated step.
                    now, y = before
                    break
                if steps == max_steps:
                    log.status = RESOURCE_EXHAUSTED
                    break
                h *= Fr(1, 2) * exact_root(r, 4)
        return log.result(state(now, y))
    return solve


EERK = PRELUDE % (('embedded_explicit_runge_kutta_integrator',) * 2) + FIRST + erk_methods('EmbeddedExplicitRungeKutta', False) + TOLERANCE % 'put(s(get<0>(e))); put(s(get<1>(e)));' + '''
template<typename M> using I = principia::integrators::_embedded_explicit_runge_kutta_integrator::internal::EmbeddedExplicitRungeKuttaIntegrator<M, D>;
'''


def adaptive_body(m, sc):
    name, t, h, ends, max_steps, exact, ratios, codes, stopped = sc
    assert len(ends) == 1 or not exact
    return 'static double const r[] = {%s}; adaptive<I<M%s>, D>(%s, %s, {%s}, %d, %s, r, $, %d);' % (
        ', '.join(str(float(r)) for r in ratios + [SAME] * 30), m, float(t), float(h), ', '.join(str(float(e)) for e in ends), max_steps, 'true' if exact else 'false', stopped)


def eerk():
    obs = []
    N = 2
    for m, (fsal, c, a, b, low) in ERK_METHODS.items():
        if len(c) == 1:
            continue

        def initialize(log, now, y):
            s, g = log.evaluate(now, *y)
            log.update(s)
            return g

        def method(log, now, y, h, g, last, fsal=fsal, c=c, a=a, b=b, low=low):
            ks, status, f = [], 0, g
            for j in range(len(c)):
                if not (fsal and j == 0):
                    s, f = log.evaluate(now + c[j] * h, *combine(y, h, a[j], ks))
                    status = status or s
                ks.append(f)
            return combine(y, h, b, ks), combine([0] * N, h, [l - u for l, u in zip(low, b)], ks), f, status, g

        for sc in ADAPTIVE:
            obs.append(scenario('%s, %s' % (m, sc[0]), adaptive_body(m, sc), lambda calls: N + N * calls,
                                lambda cs, sc=sc, method=method, fsal=fsal: adaptive(sc, cs, N, lambda i: (i[:N], i[N:]), method, first_state, True, initialize if fsal else None),
                                'integrators/embedded_explicit_runge_kutta_integrator_body.hpp', sc[7]))
    return obs


# Nyström methods: c, a, aʹ, b̂, b̂ʹ, b, bʹ.
RKN_METHODS = {
    'Plain': (False, [0, Fr(1, 2), Fr(3, 4)], [[], [Fr(1, 8)], [Fr(-1, 4), Fr(1, 2)]], [[], [Fr(1, 2)], [Fr(-1, 4), 1]],
              [Fr(1, 4), Fr(1, 8), Fr(1, 8)], [Fr(1, 4), Fr(5, 8), Fr(1, 8)], [Fr(1, 8), Fr(1, 4), Fr(1, 8)], [Fr(1, 8), Fr(1, 2), Fr(3, 8)]),
    'Fsal': (True, [0, Fr(1, 2), 1], [[], [Fr(1, 8)], [Fr(1, 8), Fr(3, 8)]], [[], [Fr(1, 2)], [Fr(1, 4), Fr(3, 4)]],
             [Fr(1, 8), Fr(3, 8), 0], [Fr(1, 4), Fr(3, 4), 0], [Fr(1, 4), Fr(1, 8), Fr(1, 8)], [Fr(1, 8), Fr(1, 2), Fr(3, 8)]),
}


def rkn_methods(base, generalized):
    r = ''
    for m, (fsal, c, a, ap, bh, bhp, b, bp) in RKN_METHODS.items():
        n = len(c)
        r += ('struct M%s : %s {\n  static constexpr int higher_order = 4;\n  static constexpr int lower_order = 3;\n  static constexpr int stages = %d;\n  static constexpr bool first_same_as_last = %s;\n'
              '  static constexpr serialization::AdaptiveStepSizeIntegrator::Kind kind = serialization::AdaptiveStepSizeIntegrator::DORMAND_ELMIKKAWY_PRINCE_1986_RKN_434FM;\n' % (m, base, n, 'true' if fsal else 'false'))
        for name, v in (('c', c), ('b̂', bh), ('b̂ʹ', bhp), ('b', b), ('bʹ', bp)):
            r += '  static constexpr FixedVector<double, %d> %s%s;\n' % (n, name, array(v))
        for name, v in (('a', a), ('aʹ', ap))[:1 + generalized]:
            r += '  static constexpr FixedStrictlyLowerTriangularMatrix<double, %d> %s%s;\n' % (n, name, triangle(v))
        r += '};\n'
    return r


ERRORS = 'for (auto const& x : e.position_error) { put(s(x)); } for (auto const& x : e.velocity_error) { put(s(x)); }'
EERKN = PRELUDE % (('embedded_explicit_runge_kutta_nyström_integrator',) * 2) + SPECIAL % 2 + rkn_methods('EmbeddedExplicitRungeKuttaNyström', False) + TOLERANCE % ERRORS + '''
template<typename M> using I = principia::integrators::_embedded_explicit_runge_kutta_nyström_integrator::internal::EmbeddedExplicitRungeKuttaNyströmIntegrator<M, D>;
'''
EEGRKN = PRELUDE % (('embedded_explicit_generalized_runge_kutta_nyström_integrator',) * 2) + GENERAL % 2 + rkn_methods('EmbeddedExplicitGeneralizedRungeKuttaNyström', True) + TOLERANCE % ERRORS + '''
template<typename M> using I = principia::integrators::_embedded_explicit_generalized_runge_kutta_nyström_integrator::internal::EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<M, D>;
'''


def eerkn(generalized=False):
    obs = []
    N = 2
    for m, (fsal, c, a, ap, bh, bhp, b, bp) in RKN_METHODS.items():
        def method(log, now, y, h, g, last, fsal=fsal, c=c, a=a, ap=ap, bh=bh, bhp=bhp, b=b, bp=bp):
            q, v = y
            ks, status = [], 0

            def position(node, coefficients):
                return combine([q[d] + h * node * v[d] for d in range(N)], h * h, coefficients, ks)

            def velocity(coefficients):
                return combine(v, h, coefficients, ks)

            for j in range(len(c)):
                if j == 0 and g is not None:
                    f = g
                else:
                    s, f = log.evaluate(now + c[j] * h, *(position(c[j], a[j]) + (velocity(ap[j]) if generalized else [])))
                    status = status or s
                ks.append(f)
                if j == 0:
                    first = f
            error = combine([0] * N, h * h, [l - u for l, u in zip(b, bh)], ks) + combine([0] * N, h, [l - u for l, u in zip(bp, bhp)], ks)
            # If the step is rejected, the first evaluation need not be repeated when it was taken over from the preceding step.
            return (position(1, bh), velocity(bhp)), error, f if fsal else None, status, g

        for sc in ADAPTIVE:
            if not generalized and any(s == ABORTED for s in sc[7].values()):
                continue
            obs.append(scenario('%s, %s' % (m, sc[0]), adaptive_body(m, sc), lambda calls: 2 * N + N * calls,
                                lambda cs, sc=sc, method=method: adaptive(sc, cs, N, lambda i: ((i[:N], i[N:2 * N]), i[2 * N:]), method, lambda t, y: state(t, *y)),
                                'integrators/embedded_explicit_%srunge_kutta_nyström_integrator_body.hpp' % ('generalized_' * generalized), sc[7]))
    return obs


def eegrkn():
    return eerkn(True)


# Starting procedure: the steps of the startup integrator are a sixteenth of the step of the integrator.
DIVISOR = 16
# Name, final times, statuses of the evaluations after the startup, number of states appended before the thread is stopped; the step is 1/2, the initial time is 0.
MULTISTEP = (('incomplete startup', [Fr(5, 8)], {}, -1), ('resumed startup', [Fr(5, 8), Fr(11, 4)], {}, -1), ('resumed twice', [Fr(1, 4), Fr(5, 8), Fr(5, 2)], {}, -1),
             ('startup only', [Fr(3, 2)], {}, -1), ('one step', [2], {}, -1), ('two steps', [Fr(11, 4)], {}, -1), ('twice', [2, 3], {}, -1),
             ('error', [Fr(5, 2)], {0: OTHER, 1: ANOTHER}, -1), ('aborted', [3], {1: ABORTED}, -1), ('stopped', [3], {}, 4), ('stopped, then resumed', [Fr(5, 2), 3], {}, 4))


def multistep(sc, codes, order, dimension, initial, startup, evaluate, method, state):
    name, ends, _, stopped = sc
    h = Fr(1, 2)

    def solve(x, i):
        y, values = initial(i)
        log = Log(x, values, codes)
        log.d = dimension
        now, appended, index = 0, 0, 0
        previous = []
        for end in ends:
            log.status = 0
            if len(previous) < order:
                if not previous:
                    previous.append((y, evaluate(log, now, y)[1]))
                small = h / DIVISOR
                limit = min(now + (order - len(previous)) * h + h / 2, end)
                t, z = now, y
                while small <= limit - t:
                    z = startup(log, t, z, small)
                    t += small
                    if len(previous) < order:
                        now, y = t, z
                        index += 1
                        if index % DIVISOR == 0:
                            previous.append((y, evaluate(log, now, y)[1]))
                            log.append(*state(now, y))
                            appended += 1
                if len(previous) < order:
                    continue
            while h <= end - now:
                now += h
                status, y, f = method(log, now, previous, h)
                log.update(status)
                previous = previous[1:] + [(y, f)]
                log.append(*state(now, y))
                appended += 1
                if appended == stopped:
                    log.status = CANCELLED
                    break
                if log.status == ABORTED:
                    break
        return log.result(state(now, y))
    return solve


# Statuses are relative to the end of the startup.
def offset(codes, calls):
    return {k + calls: v for k, v in codes.items()}


# The first ones are powers of two or zero.
ELM_METHOD = ([1, Fr(-1, 2), -1, Fr(1, 4)], [0, 5, -3, 2], 4)
ELM = PRELUDE % (('explicit_linear_multistep_integrator',) * 2) + FIRST + '''
#include "integrators/explicit_runge_kutta_integrator.hpp"
struct M : ExplicitLinearMultistep {
  static constexpr int order = 3;
  static constexpr int steps = 3;
  static constexpr serialization::FixedStepSizeIntegrator::Kind kind = serialization::FixedStepSizeIntegrator::ADAMS_BASHFORTH_ORDER_3;
  static constexpr FixedVector<double, order + 1> α%s;
  static constexpr FixedVector<double, order + 1> β_numerator%s;
  static constexpr double β_denominator = %d;
};
%s
static void elm(std::initializer_list<double> ends, double const* in, double* out, int const* c, int n, int stopped) {
  principia::integrators::_explicit_runge_kutta_integrator::internal::ExplicitRungeKuttaIntegrator<MSingle, D> const startup;
  principia::integrators::_explicit_linear_multistep_integrator::internal::ExplicitLinearMultistepIntegrator<M, D> const integrator(startup);
  auto const instance = integrator.NewInstance(problem(0, in, out, c, n), append, 0.5 * Second);
  absl::Status status;
  stop = stopped;
  for (double e : ends) { status = instance->Solve(at(e)); }
  finish(status, instance->state(), out);
}
''' % (array(ELM_METHOD[0]), array(ELM_METHOD[1]), ELM_METHOD[2], erk_methods('ExplicitRungeKutta', True))
LIST = '''
// The functions of the library which operate on lists.
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const next = _M_next; _List_node_base* const prev = _M_prev; prev->_M_next = next; next->_M_prev = prev; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base* const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
  }
}
} }
'''
ELM += LIST


def elm():
    N, k = 2, 3
    α, β, d = ELM_METHOD

    def evaluate(log, t, y):
        return log.evaluate(t, *y)

    def startup(log, t, y, h):
        return combine(y, h, [1], [log.evaluate(t, *y)[1]])

    def method(log, t, previous, h):
        y = [0] * N
        for j in range(1, k + 1):
            z, f = previous[-j]
            y = [y[i] - α[j] * z[i] + h * β[j] / d * f[i] for i in range(N)]
        s, f = log.evaluate(t, *y)
        return s, y, f

    obs = []
    for sc in MULTISTEP:
        obs.append(scenario(sc[0], 'elm({%s}, $, %d);' % (', '.join(str(float(e)) for e in sc[1]), sc[3]), lambda calls: N + N * calls,
                            lambda cs, sc=sc: multistep(sc, cs, k, N, lambda i: (i[:N], i[N:]), startup, evaluate, method, first_state),
                            'integrators/explicit_linear_multistep_integrator_body.hpp', offset(sc[2], 43)))
    return obs


# The coefficients of the first half of the method.
SLM_METHOD = ([1, Fr(-1, 2), -2], [0, 5, -3], 4)
SLM = PRELUDE % (('symmetric_linear_multistep_integrator',) * 2) + SPECIAL % 1 + '''
#include "integrators/symplectic_runge_kutta_nyström_integrator.hpp"
struct M : SymmetricLinearMultistep {
  static constexpr int order = 4;
  static constexpr serialization::FixedStepSizeIntegrator::Kind kind = serialization::FixedStepSizeIntegrator::QUINLAN_TREMAINE_1990_ORDER_8;
  static constexpr FixedVector<double, 3> α%s;
  static constexpr FixedVector<double, 3> β_numerator%s;
  static constexpr double β_denominator = %d;
};
struct M1 : SymplecticRungeKuttaNyström {
  static constexpr int order = 1;
  static constexpr bool time_reversible = false;
  static constexpr int stages = 1;
  static constexpr CompositionMethod composition = BA;
  static constexpr int evaluations = 1;
  static constexpr serialization::FixedStepSizeIntegrator::Kind kind = serialization::FixedStepSizeIntegrator::MCLACHLAN_ATELA_1992_ORDER_4_OPTIMAL;
  static constexpr FixedVector<double, 1> a{{{1}}};
  static constexpr FixedVector<double, 1> b{{{1}}};
};
static void slm(std::initializer_list<double> ends, double const* in, double* out, int const* c, int n, int stopped) {
  principia::integrators::_symplectic_runge_kutta_nyström_integrator::internal::SymplecticRungeKuttaNyströmIntegrator<M1, D> const startup;
  principia::integrators::_symmetric_linear_multistep_integrator::internal::SymmetricLinearMultistepIntegrator<M, D> const integrator(startup);
  auto const instance = integrator.NewInstance(problem(0, in, out, c, n), append, 0.5 * Second);
  absl::Status status;
  stop = stopped;
  for (double e : ends) { status = instance->Solve(at(e)); }
  finish(status, instance->state(), out);
}
''' % (array(SLM_METHOD[0]), array(SLM_METHOD[1]), SLM_METHOD[2]) + LIST


def cohen_hubbard_oesterwinter(n):
    "The weights, from the last one to the oldest, of the accelerations in the difference between the velocity and the slope of the last step, exact for polynomials."
    rows = [[Fr(-i) ** k for i in range(n)] + [Fr((-1) ** k, (k + 1) * (k + 2))] for k in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if rows[r][c])
        rows[c], rows[p] = rows[p], rows[c]
        rows[c] = [z / rows[c][c] for z in rows[c]]
        for r in range(n):
            if r != c:
                rows[r] = [z - rows[r][c] * w for z, w in zip(rows[r], rows[c])]
    return [r[n] for r in rows]


def slm():
    N, k = 1, 4
    half, βs, d = SLM_METHOD
    α = half + half[-2::-1]
    β = βs + βs[-2::-1]
    weights = cohen_hubbard_oesterwinter(k)

    def evaluate(log, t, y):
        return log.evaluate(t, *y[0])

    def startup(log, t, y, h):
        q, v = y
        v = combine(v, h, [1], [log.evaluate(t, *q)[1]])
        return combine(q, h, [1], [v]), v

    def method(log, t, previous, h):
        q = [0] * N
        for j in range(1, k + 1):
            (z, _), g = previous[-j]
            q = [q[i] - α[j] * z[i] + h * h * β[j] / d * g[i] for i in range(N)]
        s, g = log.evaluate(t, *q)
        gs = [g] + [a for _, a in previous[:0:-1]]
        v = [(q[i] - previous[-1][0][0][i]) * (1 / h) + sum((h * w * a[i] for w, a in zip(weights, gs)), 0) for i in range(N)]
        return s, (q, v), g

    obs = []
    for sc in MULTISTEP:
        obs.append(scenario(sc[0], 'slm({%s}, $, %d);' % (', '.join(str(float(e)) for e in sc[1]), sc[3]), lambda calls: 2 * N + N * calls,
                            lambda cs, sc=sc: multistep(sc, cs, k, N, lambda i: ((i[:N], i[N:2 * N]), i[2 * N:]), startup, evaluate, method, lambda t, y: state(t, *y)),
                            'integrators/symmetric_linear_multistep_integrator_body.hpp', offset(sc[2], 60)))
    return obs


def main(c):
    gs = {}
    for v, extra in VARIANTS.items():
        for name, prelude, obs in (('srkn', SRKN, srkn()), ('erk', ERK, erk()), ('eerk', EERK, eerk()), ('eerkn', EERKN, eerkn()), ('eegrkn', EEGRKN, eegrkn()), ('elm', ELM, elm()), ('slm', SLM, slm())):
            # The debug assertions on the magnitudes of compensated sums cannot be decided.
            if v == 'debug' and name in ('elm', 'slm'):
                continue
            gs[(name + ' ' + v).strip()] = (prelude, obs, tuple(extra) + ('-fno-access-control', '-iquote', SHIM))
    run(c, gs)


if __name__ == '__main__':
    vlib.main(main, 'C17', 'other', RULE)
