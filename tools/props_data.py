prop('C01', 'Old saves and proto data files keep their meaning',
     'A save, a checkpoint or an astronomical data file written by the confirmed version of the schema is decoded by the current tree into the same values: no field or enumerator that such a file may contain is renumbered, retyped, removed, re-defaulted, moved to another cardinality or newly required. New fields and messages may be added.',
     ['inputs', 'histories'], 'every message that any earlier version may have written, in binary or in text form',
     'The tests contain a handful of saved games; a field that none of them sets can be renumbered without any test noticing.',
     ['serialization/ksp_plugin.proto', 'serialization/physics.proto', 'serialization/geometry.proto', 'serialization/integrators.proto', 'serialization/astronomy.proto'],
     [('proto2 field numbers and reserved ranges', 'serialization/*.proto'), ('saves are base64/hexadecimal binary protos', 'ksp_plugin/interface.cpp principia__SerializePlugin')],
     'schema comparison over the compiled descriptors', 'Decides wire compatibility exactly, relative to the reference schema frozen in tables/wire.json; trusts protoc. Does not cover semantic reinterpretation of an unchanged field by C++ code.')
prop('C02', 'Old journals stay replayable at the schema level',
     'A journal recorded with the confirmed version of the interface decodes, with the current tree, into the same sequence of method calls with the same arguments and results: method numbers are never reused, and no argument, result or interchange field changes number, type, cardinality or default.',
     ['inputs', 'histories'], 'every journal recorded with the confirmed schema',
     'No test replays a stored journal: the only recordings are made and read back by the same binary.',
     ['serialization/journal.proto', 'journal/recorder.cpp', 'journal/player.cpp'],
     [('extensions of Method', 'serialization/journal.proto'), ('dispatch by extension', 'journal/player.hpp')],
     'schema comparison over the compiled descriptors', 'Decides wire compatibility and extension-number uniqueness exactly, relative to tables/journal_wire.json; trusts protoc.')
prop('C03', 'Every integration method satisfies its declared order conditions',
     'Each integration method offered by the library is consistent and has the order of accuracy, the reversibility, the first-same-as-last behaviour, the composition and the evaluation count that it declares, so that an integration of a smooth equation with step h has a local error of the declared order.',
     ['inputs', 'programs'], 'every smooth right-hand side and every step, through the algebraic order conditions of the method',
     'The tests integrate a harmonic oscillator and a few others and check empirical convergence of a few methods at a tolerance; a perturbed coefficient can leave those within bounds, and conditions on nonlinear elementary differentials are not exercised.',
     ['integrators/methods.hpp'],
     [('coefficient tables', 'integrators/methods.hpp'), ('AsSymplecticRungeKuttaNyström conversions', 'integrators/methods.hpp')],
     'compile-time extraction of coefficients, order conditions checked symbolically over rooted trees and words', 'Exact enumeration of all order conditions up to the declared order for all 53 methods and their conversions; residual tolerance 4e-13 (4e-10 for the published 11-digit coefficients of 吉田 8A). Says nothing of the integrator loop that uses the coefficients.')
prop('C04', 'A thread pool runs every call once, in order, and satisfies its future',
     'Every call added to a ThreadPool is queued exactly once together with the promise of the future that is returned; it is dequeued by exactly one thread, in the order in which the calls were added, executed exactly once without the pool mutex, and its own promise is then set with its result. TryAdd and WaitUntilIdleFor succeed exactly when a thread is not busy with, or about to be busy with, another call. The destructor announces the shutdown, wakes all the threads and joins them.',
     ['schedules', 'inputs', 'histories'], 'every interleaving of any number of callers and pool threads, any number of calls, void and non-void results',
     'The tests run a few hundred trivial calls on one interleaving; lost wake-ups, double executions and miscounted busy threads need particular schedules.',
     ['base/thread_pool.hpp', 'base/thread_pool_body.hpp'],
     [('queue and busy count under one mutex', 'base/thread_pool_body.hpp DequeueCallAndExecute'), ('promise per queued call', 'base/thread_pool_body.hpp Add, TryAdd')],
     'path-sensitive abstract interpretation with lock-section invalidation', 'Decides the protocol on every path with the guarded fields havocked at each acquisition, so for all schedules; trusts absl::Mutex, std::promise and the front end. Termination of the user functions is assumed.')
prop('C05', 'A recurring thread runs its action once per input, only while started',
     'The stop token seen by a stoppable thread is its own, from before its function runs. The action of a RecurringThread is run only on inputs given by Put, at most once per input and without holding a mutex, and an input that is picked is dropped only if the thread is stopped; a later Put replaces an input that was not picked. The value of an action is published to the output channel iff it is not an error and the thread was not stopped meanwhile, and Get returns a published output at most once. Consecutive executions are separated by the period. Start, Stop and Restart never let two threads run at once; Stop, Restart and destruction stop and join the thread, the latter before any member that the action uses is destroyed.',
     ['schedules', 'histories'], 'every interleaving of the thread with any sequence of Put, Get, Start, Stop, Restart and the destruction',
     'The tests run one action at one pace; races at stop, restart and destruction need an action in progress at that very time.',
     ['base/recurring_thread.hpp', 'base/recurring_thread_body.hpp', 'base/stoppable_thread.hpp', 'base/stoppable_thread_body.hpp'],
     [('channels under one mutex', 'base/recurring_thread_body.hpp RunAction, Put, Get'), ('thread-local stop token', 'base/stoppable_thread_body.hpp MakeStoppableThread')],
     'path-sensitive abstract interpretation with lock-section invalidation', 'All paths of every method, channels havocked at each acquisition, stop requests nondeterministic. Trusts std::jthread, absl::Mutex; the length of the period is not measured, only that the wait is computed from it.')
prop('C06', 'A Bundle joins all its tasks and reports the first error or the deadline',
     'Each task added to a Bundle is executed exactly once on its own thread. A Join* returns only once all the threads have been joined, on every path, and its result is the first error recorded by a task, or OK; JoinWithin and JoinBefore report kDeadlineExceeded exactly when the tasks did not complete within the given bound. The joining thread is woken up exactly once, by the last task to complete, and never misses that event, whatever the interleaving of Add, Join* and the completion of the tasks.',
     ['schedules', 'histories'], 'every interleaving of any number of tasks with the thread that adds and joins them',
     'The tests bundle a few tasks that sleep; lost or duplicate notifications need a preemption at one instruction.',
     ['base/bundle.hpp', 'base/bundle.cpp'],
     [('count of active workers and notification', 'base/bundle.cpp Toil, Join'), ('status under its own mutex', 'base/bundle.cpp Toil')],
     'path-sensitive abstract interpretation with atomic reads nondeterministic', 'All paths of every method; the counting protocol is decided from each side (own decrement decides), trusting the standard atomics, absl::Notification and absl::Mutex.')
prop('C07', 'Units, constants and dimensional arithmetic are right',
     'Every SI, BIPM, CGS, imperial and astronomical unit, and every physical constant, has the magnitude and the dimension given by its definition (SI brochure, IAU resolutions, CODATA); every SI prefix multiplies by its power of ten. The named quantities have the dimensions of their physics. The product, quotient, power, root and sum types of quantities have, for all exponents, the sums, differences, multiples and quotients of the exponents of their operands, and collapse to double exactly when dimensionless; each operator of Quantity computes that operation on the magnitudes. The parser gives to each unit symbol the unit that it denotes.',
     ['inputs', 'programs'], 'every unit, constant, named quantity, prefix and unit symbol; every combination of exponents; every magnitude',
     'The tests compare a few ratios of units; a wrong unit or exponent that they do not name silently rescales every trajectory.',
     ['quantities/si.hpp', 'quantities/quantities_body.hpp', 'quantities/astronomy.hpp', 'quantities/constants.hpp', 'quantities/uk.hpp', 'quantities/named_quantities.hpp', 'quantities/generators_body.hpp', 'quantities/parser_body.hpp'],
     [('units as constexpr quantities', 'quantities/si.hpp, uk.hpp, bipm.hpp, cgs.hpp, astronomy.hpp, constants.hpp'), ('dimensions as types', 'quantities/dimensions_body.hpp, generators_body.hpp'), ('table of unit symbols', 'quantities/parser_body.hpp ParseUnit')],
     'constant and type evaluation by the compiler, abstract interpretation of operators and parser', 'Exhaustive over the declared units and symbols and over all pairs of base exponents; the type rules are checked on exponents that distinguish all the dimensions. The reference tables were written from the standards, not from the code.')
prop('C08', 'Quantities, frames, points and maps cannot be mixed up',
     'An expression on quantities, multivectors, bilinear forms, points, instants, degrees of freedom and geometric maps compiles if and only if it is meaningful: sums, differences, comparisons and assignments require the same dimension, frame and grade; points are subtracted into vectors and translated by vectors, but neither added nor scaled; products and quotients combine the dimensions and keep the frame; inner products, wedges, commutators and angles require the same frame and compatible grades; a map from F to G applies only to objects of F and yields objects of G, and maps compose only if the middle frames agree. The type of a meaningful expression is the one given by these rules, and there are no conversions, implicit or explicit, between different such types (save for the construction of a trivector from its coordinate).',
     ['programs'], 'every program built on these types: all pairs of the types of the matrix, for every operator and function',
     'A test that would use two frames wrongly does not compile, so that the test suite cannot show that an unsound program is rejected; an overload that accepts too much goes unnoticed.',
     ['geometry/grassmann.hpp', 'geometry/point.hpp', 'geometry/direct_sum.hpp', 'geometry/rotation.hpp', 'geometry/orthogonal_map.hpp', 'geometry/affine_map.hpp', 'geometry/symmetric_bilinear_form.hpp', 'physics/rigid_motion.hpp', 'quantities/quantities.hpp'],
     [('phantom frame parameters', 'geometry/frame.hpp, grassmann.hpp'), ('explicit private constructors', 'geometry/point.hpp, quantities/quantities.hpp')],
     'compile-time positive and negative witnesses over a matrix of types', '31 types and 30 maps, 18 operators and functions, against an independent model in Python. Mixed products with bilinear forms whose rejection is a hard error are not witnessed.')
prop('C09', 'What a save contains is read back into the state that it came from',
     'Every field that the serialization code writes into a message is also read by the deserialization code, on a path taken for current saves, and every field that it reads is written, except for the listed fields of older versions. A field written from one member of an object is restored to that member, never to the member saved in another field. A function that fills a message sets all its required fields on every path. The marks by which a save of an older version is recognized are false for current saves, the field whose absence is a mark being always written, and true for messages that have only the older fields.',
     ['histories', 'inputs'], 'every message type, every field, every path of every function that writes or reads it, any state of the objects and saves of any age',
     'The round-trip tests compare a few objects, mostly in default states, and many compare only the messages; a field lost, swapped, or taken for the mark of an old save with particular values is not seen until a player reloads.',
     ['physics/ephemeris_body.hpp', 'physics/rotating_body_body.hpp', 'physics/discrete_trajectory_body.hpp', 'ksp_plugin/plugin.cpp', 'ksp_plugin/vessel.cpp', 'ksp_plugin/part.cpp', 'ksp_plugin/pile_up.cpp', 'geometry/serialization.hpp'],
     [('WriteToMessage and ReadFromMessage pairs', 'all the directories'), ('is_pre_ marks', 'ReadFromMessage functions')],
     'interprocedural dataflow between message fields and members, three-valued evaluation of presence', 'Identifier-level dataflow on the statements of all the functions that access messages, typed by the descriptors; values within a container or an aggregate member are not told apart, so that a permutation of the elements of an array is not seen. Accesses through unknown helper types are ignored rather than reported.')
prop('C10', 'Numerical tables and series coefficients are exact to the last bit that matters',
     'Each tabulated constant has the value of the quantity that it stands for, within the precision of its representation: the Gauss-Legendre nodes and weights and the Legendre normalization factors up to degree 50; the global maxima of the normalized associated Legendre functions; the finite-difference coefficients; the matrices of Newhall in both bases for degrees 3 to 17, 8 divisions, weight 0.4; the bits of 4/π; the accurate sine and cosine table with its 18 extra bits, the polynomials of Sin and Cos within the errors that their rounding tests allow, the splittings of π/2 of the argument reductions; the Taylor and Maclaurin series of the elliptic integrals, of the nome and of b₀, each expanded about the point, and used on the interval, that its name says; the Legendre polynomials; the Cohen-Hubbard-Oesterwinter velocity formulas; and the coefficients and origin of the apodization windows.',
     ['inputs'], 'every entry of every table; every argument, through the polynomials that it selects',
     'The tests evaluate the functions at sampled points with tolerances; one wrong digit in one of ten thousand entries shows only for one degree, one interval or one argument.',
     ['numerics/accurate_tables.mathematica.h', 'numerics/newhall_matrices.mathematica.h', 'numerics/legendre_roots.mathematica.h', 'numerics/gauss_legendre_weights.mathematica.h', 'numerics/payne_hanek.mathematica.h', 'numerics/finite_difference_coefficients.mathematica.h', 'numerics/legendre_normalization_factor.mathematica.h', 'numerics/max_abs_normalized_associated_legendre_function.mathematica.h', 'numerics/elliptic_integrals.cpp', 'numerics/elliptic_functions.cpp', 'numerics/sin_cos.cpp', 'numerics/apodization.cpp', 'integrators/cohen_hubbard_oesterwinter_body.hpp', 'numerics/legendre_body.hpp'],
     [('generated tables', 'numerics/*.mathematica.h'), ('polynomials at namespace scope', 'numerics/elliptic_integrals.cpp, elliptic_functions.cpp, sin_cos.cpp')],
     'constant evaluation by the compiler and exact evaluation of initializers, against independent exact arithmetic', 'About 13,900 entries, each recomputed from its definition (exact rationals, or 60 digits). The rounding errors of the evaluation itself are not bounded.')
prop('C11', 'Dates, leap seconds and time scales are converted exactly',
     'Every date of the proleptic Julian calendar (from JD 0) and of the Gregorian calendar up to the year 9999, given as a calendar, ordinal or ISO week date, in basic or extended form, has the Julian date of that day, and the components of the date of a Julian date, the ordinal, the next day and the order of dates are those of the calendar (Gregorian from 1582-10-15); times of day and (modified) Julian dates have the value of their text. A text that is not a date, a time or a Julian date in a documented form, or that does not exist, is rejected, and only these are. The Instant of a text in TT, TAI, GPS time, BeiDou time, UTC or UT1 is the one defined by the offsets of these scales, the leap seconds since 1972, the IERS offsets, rates and steps of UTC from 1961, and the linear interpolation of the EOP series for UT1; leap seconds exist exactly where they were inserted or removed; a time out of the range of the data is rejected. TTDay and TTSecond give the day and second that contain an instant. The EOP series are daily (every 100 days), and smooth once leap seconds are removed. Each SP3 time system is read in its scale.',
     ['inputs'], 'every day of 14,713 years in two calendars; every leap second and change of rate of UTC; samples of the forms of the texts and of the UT1 series',
     'The tests compare a few dozen dates; a wrong month, century, leap second or rate shows only on dates that they do not name.',
     ['astronomy/date_time.hpp', 'astronomy/date_time_body.hpp', 'astronomy/time_scales.hpp', 'astronomy/time_scales_body.hpp', 'astronomy/eop_c04.generated.h', 'astronomy/experimental_eop_c02.generated.h', 'astronomy/standard_product_3.cpp', 'base/mod.hpp'],
     [('calendar arithmetic', 'astronomy/date_time_body.hpp Date'), ('text parsers', 'astronomy/date_time_body.hpp DateParser, TimeParser, JulianDateParser'), ('UTC tables', 'astronomy/time_scales_body.hpp leap_seconds, RateTAIMinusStretchyUTC, OffsetTAIMinusStretchyUTC')],
     'compile-time witnesses: constants evaluated by the compiler against an independent definition', 'The calendars are compared on 2 days (thorough: 4) of every month of every year, between which the day enters linearly, the ordinals and weeks on 6 and 16 values per year; the texts and UT1 by samples of every form. The EOP values themselves are only checked for continuity.')

prop('C12', 'The geometric operations obey the laws of linear and multilinear algebra',
     'Each operation of the geometry library has the value of its mathematical definition for every value of its operands, in the portable code, in the code with intrinsics and in the debug build: the operators, inner, cross, wedge, commutator and mixed products, norms, projections and rejections of vectors, bivectors and trivectors; quaternions and complex numbers; products, transposition, determinant and solution of systems of 3×3 matrices; the twelve conventions of Euler angles and the Cardano angles, rotations from an axis and an angle, from a basis, from quaternions, forwards and to frames defined either way; composition, inverse and action of rotations, permutations, signatures, orthogonal, homothecy and conformal maps, on vectors, bivectors and trivectors, with the sign given by the determinant; symmetric bilinear forms and their products; spherical coordinates; angles between vectors; direct sums, points and barycentres. A division by 0 occurs only where the definition has none to offer.',
     ['inputs', 'configurations'], 'all the values of the operands (as real numbers); the intrinsic, portable and debug variants',
     'The tests compare the operations with examples; a wrong sign in one convention, one type of operand or one branch of a square root goes unnoticed unless an example meets it.',
     ['geometry/r3_element_body.hpp', 'geometry/grassmann_body.hpp', 'geometry/quaternion_body.hpp', 'geometry/r3x3_matrix_body.hpp', 'geometry/rotation_body.hpp', 'geometry/orthogonal_map_body.hpp', 'geometry/conformal_map_body.hpp', 'geometry/permutation_body.hpp', 'geometry/signature_body.hpp', 'geometry/symmetric_bilinear_form_body.hpp', 'geometry/complexification_body.hpp', 'geometry/barycentre_calculator_body.hpp', 'geometry/direct_sum_body.hpp'],
     [('operators and products', 'geometry/*_body.hpp'), ('quaternion of a rotation matrix', 'geometry/rotation_body.hpp ToQuaternion'), ('linear solver', 'geometry/r3x3_matrix_body.hpp Solve')],
     'abstract interpretation of the LLVM IR in the domain of rational functions (value numbering, trace partitioning), compared with definitions as normal forms', 'About 700 identities over all inputs. Rounding, overflow and NaN are ignored. Where a normal form is too large (a few compositions) the identity is compared at points of each path.')

prop('C13', 'Rigid and similar motions transform positions and velocities consistently',
     'For all the values of its parameters, a rigid transformation maps q to L(q − a) + b; a rigid motion maps a position and a velocity (q, u) to those seen from the other frame, (R(q), L(u − v − ω × (q − o))), where ω and v are the angular velocity and the velocity, and o the position, of the origin of the target frame; the angular velocities and the velocities of the origins that it gives, of either frame, are those of that motion, whichever frame it is constructed from, and for frames of either handedness; the inverse undoes it, the product is the one followed by the other, the identities do nothing; a similar motion is a rigid motion followed by a dilatation at a given rate, and composes and inverts likewise. Degrees of freedom add, subtract, scale, map and have barycentres componentwise. A perspective projects a point on the focal plane, and cuts at the focal plane a segment that crosses it.',
     ['inputs', 'configurations'], 'all the values of the parameters (as real numbers); the intrinsic, portable and debug variants; both handednesses',
     'The tests compose a few motions with particular values, many of them zero; a lost term or a wrong frame of an angular velocity goes unnoticed when it happens to vanish.',
     ['physics/rigid_motion_body.hpp', 'physics/similar_motion_body.hpp', 'geometry/affine_map_body.hpp', 'geometry/space_body.hpp', 'geometry/perspective_body.hpp', 'geometry/orthogonal_map_body.hpp'],
     [('actions, inverses, compositions', 'physics/rigid_motion_body.hpp, similar_motion_body.hpp, geometry/affine_map_body.hpp'), ('projection', 'geometry/perspective_body.hpp')],
     'abstract interpretation of the LLVM IR in the domain of rational functions (value numbering, trace partitioning), compared with definitions as normal forms', 'About 83 identities in 3 variants. Rounding is ignored. VisibleSegments and IsHiddenBySphere are not covered.')

prop('C14', 'Reference frames move, and accelerate what is in them, as defined',
     'For each reference frame (body-centred non-rotating; body-centred with an axis to another body or to a trajectory; barycentric rotating, of two bodies or of two groups; rotating-pulsating; body surface), whatever the positions, velocities, accelerations and jerks of the bodies: the motion to the frame maps the degrees of freedom to those with respect to its origin, in its axes (fore from the primary to the secondary; binormal along r × v; for rotating bodies the IAU pole, node and prime meridian at that time) and relative to its angular velocity, and for the pulsating frame divided by the distance of the bodies; the motion from the frame is its inverse; the geometric acceleration is the gravitational acceleration minus that of the origin and the Coriolis, centrifugal and Euler accelerations (and the dilatation terms); the rotation-free acceleration and the potential are the ones of the same frame for a body at rest; evaluations at other times in between make no difference. The trihedra and their first two derivatives, the Frenet trihedron, the navball (north, east, nadir) and the axes of rotating bodies are as defined.',
     ['inputs', 'configurations', 'histories'], 'all the values of the states of the bodies and of the point (as real numbers); the intrinsic, portable and debug variants; one other time in between',
     'The tests use a few configurations, often circular orbits or a body at rest, where the Euler term, the jerk term, a component of the angular velocity or the derivative of the distance vanish; and they never interleave times.',
     ['physics/rigid_reference_frame_body.hpp', 'physics/body_centred_body_direction_reference_frame_body.hpp', 'physics/body_centred_non_rotating_reference_frame_body.hpp', 'physics/barycentric_rotating_reference_frame_body.hpp', 'physics/rotating_pulsating_reference_frame_body.hpp', 'physics/body_surface_reference_frame_body.hpp', 'physics/rotating_body_body.hpp', 'physics/reference_frame_body.hpp', 'physics/body_surface_frame_field_body.hpp'],
     [('trihedra and accelerations', 'physics/rigid_reference_frame_body.hpp'), ('motions', 'physics/*_reference_frame_body.hpp'), ('rotating bodies', 'physics/rotating_body_body.hpp')],
     'abstract interpretation of the LLVM IR in the domain of rational functions (value numbering, trace partitioning), compared with definitions as normal forms', '85 identities in 3 variants. Rounding is ignored. The ephemeris is a stand-in. For the pulsating frame, the Frenet frame and the navball, the orientation is fixed (a rational rotation), as it is general elsewhere.')

prop('C15', 'Polynomials and the approximations built on them are those of their definitions',
     'Whatever the coefficients, the origins and the argument (as real numbers), for the degrees used: a polynomial in the monomial basis evaluates to the sum of its coefficients times the powers of the argument minus its origin, and its derivative to the derivative of that, with each evaluator (Horner, Estrin, with and without FMA) and through the virtual interface; sums, differences, products, quotients by scalars, compositions, pointwise inner products, derivatives, primitives, integrals, conversions between degrees and changes of origin are those of the functions. A series in the Чебышёв basis evaluates to the series, as does its derivative, and its Frobenius companion matrix has the same roots. Hermite interpolants match values and derivatives at both ends (and their sums, differences, extrema); finite differences are the derivative of the interpolating polynomial at any of the points; the Newhall approximation is the constrained least-squares fit of positions and velocities, for every degree and in both bases; the quadratures are exact up to their degree; Legendre polynomials follow the recurrence; the solutions of a quadratic equation are its real roots, in order.',
     ['inputs', 'configurations'], 'all real values of the coefficients, origins, bounds and arguments; degrees 0 to 17 for evaluators, 3 to 17 for Newhall, 2 to 9 points for finite differences; the intrinsic, portable and debug variants',
     'The tests use a few degrees, points and coefficients; an error in a coefficient which is zero there, in an evaluator for a degree which is not tested, or in one entry of a Newhall matrix, passes.',
     ['numerics/polynomial_in_monomial_basis_body.hpp', 'numerics/polynomial_evaluators_body.hpp', 'numerics/polynomial_in_чебышёв_basis_body.hpp', 'numerics/hermite2_body.hpp', 'numerics/hermite3_body.hpp', 'numerics/finite_difference_body.hpp', 'numerics/newhall_body.hpp', 'numerics/newhall_matrices.mathematica.h', 'numerics/quadrature_body.hpp', 'numerics/legendre_body.hpp', 'numerics/root_finders_body.hpp'],
     [('polynomials', 'numerics/polynomial_in_monomial_basis_body.hpp'), ('Newhall matrices', 'numerics/newhall_matrices.mathematica.h'), ('series', 'numerics/polynomial_in_чебышёв_basis_body.hpp')],
     'abstract interpretation of the LLVM IR in the domain of rational functions (value numbering, trace partitioning), compared with definitions as normal forms', 'About 345 identities in 3 variants. Rounding is ignored; the entries of tables (Newhall, Gauss–Legendre) are compared to within 1e-9 and 1e-10, relatively. The other degrees are instances of the same templates.')

prop('C16', 'Gravity is that of the bodies: accelerations, potentials and jerks',
     'Whatever the bodies, their gravitational parameters, positions and velocities: the acceleration of a point is the sum over the bodies of −μ r / |r|³ and of their spherical harmonics; that of a massive body is the sum of those due to the other bodies, including its recoil from the force that its own oblateness exerts on them, so that the total momentum is conserved; the potential is the sum of −μ / |r| and of the harmonics; jerks and Jacobians are those of the point masses; each computation, of one or of many bodies, gives the same values, uses the positions at the given time, and reports a collision iff a point is within 0.99 of the minimal radius of a body. The harmonics of an oblate body are, in its rotating axes, the sum over the degrees n and orders m (except (2, 1)) of N_nm (R/r)^n P_nm(sin β) (C_nm cos mλ + S_nm sin mλ) / r, times the damping of the degree (that of the sectoral terms for (2, 2)), a cubic going smoothly from 1 at the inner threshold to 0 at three times that radius; the acceleration is the gradient of the opposite of the potential; only the zonal terms are used for a zonal body; and no harmonic inside its outer threshold is left out.',
     ['inputs', 'configurations'], 'all values of the gravitational parameters, geopotential coefficients and velocities (as real numbers); all positions for two bodies and for the degrees up to 5, sampled directions and radii to degree 30; each limiting degree; the intrinsic, portable and debug variants',
     'The tests compare a few models at a few points, mostly with loose tolerances: a wrong sign for one order, degree, pair of kinds of bodies or range of distances is below these tolerances.',
     ['physics/geopotential_body.hpp', 'physics/harmonic_damping_body.hpp', 'physics/ephemeris_body.hpp', 'physics/oblate_body_body.hpp', 'physics/rotating_body_body.hpp'],
     [('spherical harmonics', 'physics/geopotential_body.hpp AllDegrees, DegreeNOrderM'), ('damping', 'physics/harmonic_damping_body.hpp'), ('forces', 'physics/ephemeris_body.hpp Compute*')],
     'abstract interpretation of the LLVM IR in the domain of rational functions (value numbering, trace partitioning), compared with definitions as normal forms', 'About 300 identities in 3 variants. Rounding is ignored. The trajectories, and for the forces the geopotentials, are stand-ins. The choice of the damping thresholds from the tolerance, and the integrators, are not covered.')

prop('C17', 'The integrators carry out the steps of their methods',
     'For every equation, initial state, step and final time, an integrator evaluates the right-hand side at the nodes and stages of its method, advances the state by its weights, in the direction of the step, and appends each of the states thus obtained exactly once and in order. The fixed-step integrators stop at the last multiple of the step which is not beyond the final time, and go on from there; the multistep ones obtain their first points from 16 times smaller steps of their startup integrator, even if the startup is interrupted. The adaptive ones repeat a step, with the step size prescribed by the tolerance, until it is accepted; an exact last step ends at the final time and the integration can be resumed from before that step; otherwise no state is beyond the final time. Errors of the right-hand side are returned, except those of rejected steps; an aborted evaluation or a thread being stopped ends the integration after the state has been appended; too many steps are reported.',
     ['inputs', 'histories'], 'all values of the right-hand side and of the initial state (as real numbers, which determine all the arguments and results); about 25 histories of acceptance, interruption and error per integrator, in both directions; methods with and without first-same-as-last, of the three kinds of composition; the intrinsic, portable and debug variants',
     'The tests integrate a few equations and compare the errors with measured bounds: histories of rejection, clipping, restart, error and direction which these equations do not produce are not seen.',
     ['integrators/symplectic_runge_kutta_nyström_integrator_body.hpp', 'integrators/explicit_runge_kutta_integrator_body.hpp', 'integrators/embedded_explicit_runge_kutta_integrator_body.hpp', 'integrators/embedded_explicit_runge_kutta_nyström_integrator_body.hpp', 'integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator_body.hpp', 'integrators/explicit_linear_multistep_integrator_body.hpp', 'integrators/symmetric_linear_multistep_integrator_body.hpp', 'integrators/starter_body.hpp'],
     [('steps', 'Instance::Solve of each integrator'), ('startup', 'integrators/starter_body.hpp Solve'), ('step control', 'the embedded integrators')],
     'abstract interpretation of the LLVM IR in the domain of rational functions (value numbering, trace partitioning), compared with the expected sequence of evaluations and states', 'About 300 histories in up to 3 variants. Rounding is ignored, hence so are compensated summation and vanishing steps. The right-hand side and the tolerance are stand-ins; the methods are small ones with dyadic coefficients (those of the library are covered by C03). The Чебышёв–Picard integrator is not covered.')
prop('C18', 'Shared state is locked, locks do not deadlock, threads end first',
     'In every class that owns a mutex or a thread: each field guarded by a mutex is read with that mutex held and written with it held exclusively, whatever the sequence of calls and the thread; a function whose callers are in charge of locking is only called with the lock held; no thread acquires a mutex that it holds already and the mutexes are acquired in a consistent order, so that no schedule deadlocks on them; the functions given by clients are called without any lock; no reference to guarded data is returned past the release of the lock; and a thread is joined before any member that it uses is destroyed.',
     ['schedules', 'histories'], 'every schedule of any number of threads calling the public functions, and the destruction at any time',
     'A race, a deadlock or a use after destruction shows up on rare schedules only; most of the classes concerned are never used concurrently by a test, or not even built by the stable tests.',
     ['base/bundle.hpp', 'base/thread_pool.hpp', 'base/pull_serializer.hpp', 'base/push_deserializer.hpp', 'base/push_pull_callback.hpp', 'base/recurring_thread.hpp', 'base/string_log_sink.hpp', 'physics/ephemeris.hpp', 'physics/continuous_trajectory.hpp', 'physics/checkpointer.hpp', 'physics/clientele.hpp', 'physics/protector.hpp', 'physics/barycentric_rotating_reference_frame.hpp', 'ksp_plugin/vessel.hpp', 'ksp_plugin/orbit_analyser.hpp', 'ksp_plugin/geometric_potential_plotter.hpp', 'ksp_plugin/flight_plan_optimization_driver.hpp', 'ksp_plugin/plugin_reader.hpp', 'journal/recorder.hpp', 'mathematica/logger.hpp'],
     [('guarded fields', 'ABSL_GUARDED_BY and, where absent, the fields written under the lock'), ('threads', 'the members of type std::thread, std::jthread and RecurringThread')],
     'interprocedural lockset, lock-order and teardown analysis of the token trees', 'About 350 accesses in 24 classes, 570 obligations. Aliases of guarded fields taken under the lock and used after its release are not followed; calls on other objects are resolved by the type of the member. RecurringThread itself is decided by C05.')
