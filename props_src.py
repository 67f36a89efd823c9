"""Source of properties.jsonl and MANIFEST.json (run: python3 props_src.py)."""
import json
import sys

P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note=None, level_note=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over if isinstance(over, list) else [over], text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  level_note=level_note))


prop('C01', 'Checked 64-bit arithmetic is exact or rejected',
     'The checked sum, difference and absolute value of 64-bit integers return the mathematically exact result whenever it is representable. Whenever it is not, an exception is raised and no wrapped or undefined result is ever returned.',
     'inputs', 'all pairs of 64-bit integers', 'Unit tests sample a few values near the limits; overflow depends on both operands.',
     ['resim/math/safe_integer_utils.hh', 'resim/math/safe_integer_utils.cc'],
     [('safe_sum, safe_difference, safe_abs', 'resim/math/safe_integer_utils.cc')])
prop('C02', 'Durations split into seconds and nanoseconds without loss',
     'Every duration splits into whole seconds and sub-second nanoseconds (|nanos| < 1e9, same sign as the duration) that add up to it exactly. Joining the two parts gives back exactly the same duration, and every representable pair joins to seconds * 1e9 + nanoseconds.',
     'inputs', 'every 64-bit nanosecond count, every (seconds, nanoseconds) pair with a representable sum',
     'Tests use random durations in a narrow range; sign and limit cases need all counts.',
     ['resim/time/timestamp.hh'], [('to_seconds_and_nanos, from_seconds_and_nanos', 'resim/time/timestamp.hh')])
prop('C03', 'Durations convert to floating-point seconds and back accurately',
     'Converting a duration to seconds yields the quotient by 1e9 up to floating-point rounding. Converting seconds to a duration is off by less than one nanosecond plus rounding, and a count of up to 2^50 ns survives the round trip within one nanosecond.',
     'inputs', 'every duration, every finite number of seconds in range, every rounding of every operation',
     'Tests sample a few values; the error bound concerns all magnitudes.',
     ['resim/time/timestamp.hh'], [('as_seconds, as_duration', 'resim/time/timestamp.hh')])
prop('C04', 'Event schedules deliver in time order, first-in-first-out on ties',
     'After any interleaving of scheduling and popping, the top event is the earliest outstanding one, and among equal times the one scheduled first; payloads and times arrive unchanged and none is lost or duplicated. A schedule that ran out of sequence numbers rejects further events and keeps its contents.',
     ['histories', 'inputs'], 'every history of schedule/pop operations (bounded length) with arbitrary timestamps',
     'Tests drain one randomly filled schedule; ordering bugs need particular tie patterns and interleavings.',
     ['resim/time/event_schedule.hh'], [('CompareEvents, schedule_event, pop_event', 'resim/time/event_schedule.hh')])
prop('C05', 'The number of time samples is the minimal one',
     'For every interval of timestamps and positive maximum step, the number of samples is the least n >= 1 for which n - 1 equal steps, none longer than the maximum, cover the interval. Steps that are not positive and spans that are not representable are rejected with an exception.',
     'inputs', 'every 64-bit start, end and step', 'Tests try hand-picked intervals; rounding of the division and overflow depend on all three numbers.',
     ['resim/time/sample_interval.cc', 'resim/time/sample_interval.hh'], [('num_samples(Timestamp, ...)', 'resim/time/sample_interval.cc')])
prop('C06', 'Timestamp sampling visits the closest even partition',
     'Sampling an interval of timestamps calls back exactly the minimal number of times, starting at the start and ending at the end, monotonically and in either direction. Each sample is the timestamp nearest to its exact rational position and no two neighbours are further apart than the maximum step.',
     'inputs', 'every 64-bit start, end and step with a bounded number of samples',
     'Tests sample a few short intervals; accuracy over long ones depends on intermediate overflow and rounding.',
     ['resim/time/sample_interval.cc'], [('sample_interval(Timestamp, ...)', 'resim/time/sample_interval.cc')])
prop('C07', 'Floating-point sampling visits the even partition',
     'Sampling a floating-point interval calls back the minimal number of times for the maximum step (up to rounding), from exactly the start to exactly the end, at evenly spaced positions; an empty interval is sampled once. Steps that are not positive are rejected before any callback, and large counts are returned unchanged.',
     'inputs', 'every start, end and step in range, every rounding of every operation',
     'Tests sample a few values; minimality and end points depend on rounding.',
     ['resim/time/sample_interval.cc'], [('num_samples(double, ...), sample_interval(double, ...)', 'resim/time/sample_interval.cc')])
prop('C08', 'Unique ids round-trip through text and compare by value',
     'Every id prints in the canonical lower-case 36-character form and parses back to the same id; a string is accepted exactly when it is 8-4-4-4-12 hexadecimal digits of either case. Equality, inequality, nullness and hashing agree with the 128 bits of the id, and newly made ids are distinct and not null.',
     'inputs', 'all 128-bit ids and pairs, all strings of the stated lengths',
     'Tests use a handful of generated ids and strings.',
     ['resim/utils/uuid.cc', 'resim/utils/uuid.hh'], [('UUID', 'resim/utils/uuid.cc')])
prop('C09', 'Failures propagate unchanged and cannot be mistaken for values',
     'In any chain of fallible calls the first failure stops the chain, is returned unchanged with its location and message, and every operand is evaluated exactly once; values, also ones that own memory or cannot be copied, arrive intact. A result holds either a value or a failure: reading a value out of a failure throws, and an assertion throws, with its message, condition and location, exactly when its condition is false.',
     ['inputs', 'histories'], 'every pass/fail pattern of bounded chains, every payload',
     'Tests exercise single failures at fixed places.',
     ['resim/utils/status.hh', 'resim/utils/status.cc', 'resim/utils/status_value.hh', 'resim/assert/assert.hh', 'resim/assert/assert.cc'],
     [('RETURN_IF_NOT_OK, RETURN_OR_ASSIGN, StatusValue', 'resim/utils/status_value.hh'), ('REASSERT', 'resim/assert/assert.hh')])
prop('C10', 'References and variant matching reach exactly the intended object',
     'A populated nullable reference denotes the original object and an empty one throws on every access; an in/out parameter writes through to its argument. Matching a variant calls exactly the branch of the alternative it holds, once, with that value, and returns its result.',
     'inputs', 'every payload and every alternative', 'Tests check one example each.',
     ['resim/utils/nullable_reference.hh', 'resim/utils/inout.hh', 'resim/utils/match.hh'],
     [('NullableReference, InOut, match', 'resim/utils')])
prop('C11', 'Coordinate-frame discipline is enforced everywhere',
     'Transforms carry either two frames or none: composing framed transforms succeeds exactly when the inner frames match and yields the outer frames, the inverse swaps them, interpolation keeps or relabels them, and any partly unframed composition is unframed. Rotating, adding or comparing framed vectors, and measuring distances, succeeds exactly when the frames agree, and results carry the right frame.',
     'inputs', 'every combination of frame ids, framed and unframed operands',
     'Tests check a few frames; a wrong frame check only shows for particular coincidences of ids.',
     ['resim/transforms/liegroup.hh', 'resim/transforms/frame.hh', 'resim/transforms/framed_vector.hh', 'resim/transforms/so3.cc', 'resim/transforms/se3.cc'],
     [('frame checks', 'resim/transforms/so3.cc, resim/transforms/se3.cc, resim/transforms/framed_vector.hh')])
prop('C12', 'Rotations and poses form groups acting on space',
     'A rotation built from an angle and axis, quaternion or matrix rotates right-handedly by that angle about that axis and preserves lengths and orientation; a pose rotates, then translates. Composition is application after application, associative, with the identity neutral and the inverse undoing the transform on either side.',
     'inputs', 'every rotation, translation and vector', 'Tests sample random elements and cannot rule out special axes or angles.',
     ['resim/transforms/so3.cc', 'resim/transforms/se3.cc'], [('operator*, inverse, constructors', 'resim/transforms/so3.cc, resim/transforms/se3.cc')])
prop('C13', 'Adjoints agree with conjugation and the commutator',
     'The adjoint of a transform maps algebra elements exactly as conjugation by the transform does, and multiplies like the transforms. The algebra adjoint is the commutator, and the shortcuts that apply an adjoint agree with multiplication by its matrix.',
     'inputs', 'every transform and every pair of algebra elements', 'Tests sample random elements.',
     ['resim/transforms/so3.cc', 'resim/transforms/se3.cc', 'resim/transforms/cross_matrix.cc'],
     [('adjoint, adjoint_times, cross_matrix', 'resim/transforms/so3.cc, resim/transforms/se3.cc')])
prop('C14', 'Exponential and logarithm are inverse to each other',
     'The exponential of an angle-times-axis vector is the rotation by that angle about that axis, and for poses the exact screw motion, including tiny angles. The logarithm inverts it for all angles below a half turn, and the exponential of the logarithm of any transform is that transform.',
     'inputs', 'every axis, angle and translation in range', 'Tests sample random elements and a few small angles; the branches between small, moderate and half-turn angles need all of them.',
     ['resim/transforms/so3.cc', 'resim/transforms/se3.cc', 'resim/transforms/liegroup_exp_diff.cc'],
     [('exp, log', 'resim/transforms/so3.cc, resim/transforms/se3.cc'), ('derivative_of_exp_so3', 'resim/transforms/liegroup_exp_diff.cc')])
prop('C15', 'Interpolation follows the one-parameter motion',
     'Interpolating a rotation or pose by a fraction gives the same screw motion executed by that fraction: the identity at zero, the transform itself at one, uniform in between and extrapolating beyond, including negative fractions.',
     'inputs', 'every transform and every fraction in range', 'Tests check a few fractions of random elements.',
     ['resim/transforms/so3.cc', 'resim/transforms/se3.cc'], [('interp', 'resim/transforms/so3.cc, resim/transforms/se3.cc')])
prop('C16', 'Distances, arc lengths and the differential of exp are exact',
     'The distance of two poses is the Euclidean distance of their translations, symmetric and not negative; the arc length is the length of the translation part of the logarithm. The differential of the exponential and its coefficients equal their closed forms at every angle, and approximate equality accepts a transform itself and rejects one that differs visibly.',
     'inputs', 'every pose, angle and vector in range', 'Tests sample random poses and angles.',
     ['resim/transforms/se3.cc', 'resim/transforms/so3.cc', 'resim/transforms/liegroup_exp_diff.cc'],
     [('se3_distance, arc_length, exp_diff, is_approx', 'resim/transforms/se3.cc, resim/transforms/so3.cc')])

prop('C17', 'Two-jets compose, invert and convert like the curves they describe',
     'A left or right two-jet stands for a curve of transforms with its first and second derivatives at one instant. Products and inverses of two-jets have exactly the value and derivatives of the product and inverse curve; converting between left and right describes the inverse curve and loses nothing; members keep what they were given, and approximate equality looks at all three.',
     'inputs', 'every pose and every pair of derivatives', 'Tests sample random jets; sign and ordering errors in the cross terms can hide behind special inputs.',
     ['resim/curves/two_jet.cc', 'resim/curves/two_jet.hh'], [('TwoJetL, TwoJetR', 'resim/curves/two_jet.cc')])
prop('C18', 'Curve blending polynomials are the quintic Hermite basis',
     'The five coefficient functions used to blend the end conditions of a curve segment are the quintic Hermite polynomials with their exact first and second derivatives at every normalized time, so each meets exactly one end condition and no other.',
     'inputs', 'every normalized time', 'The tests look at times 0, 1/2 and 1 only, which many wrong polynomials also meet.',
     ['resim/curves/quintic_poly_coeffs.cc', 'resim/curves/quintic_poly_coeffs.hh'], [('QuinticPolyCoeffs', 'resim/curves/quintic_poly_coeffs.cc')])
prop('C19', 'A curve segment meets its end conditions and reports true derivatives',
     'A segment between two two-jets starts at the first and ends at the second with their velocities and accelerations. In between it is the Lie spline composed, in this order from the inside out, of the displacement, origin velocity, destination velocity, origin acceleration and destination acceleration factors, and the reported velocity and acceleration are the derivatives of the reported pose. Without rotation it is the Hermite quintic in each coordinate.',
     'inputs', 'every pair of end conditions and time within the bounds', 'Tests sample random ends and finite differences.',
     ['resim/curves/t_curve_segment.cc'], [('TCurveSegment::point_at', 'resim/curves/t_curve_segment.cc')])
prop('C20', 'Time curves interpolate their control points smoothly in real time',
     'A curve through timed control points passes through each with its velocity and acceleration per second, from both sides, and between them follows the segment that spans the query time, scaled to the true duration of the segment; a curve that does not rotate is the piecewise Hermite quintic in time.',
     'inputs', 'every triple of control points and times in range', 'Tests use a fixed set of times and segments.',
     ['resim/curves/t_curve.cc', 'resim/curves/t_curve_segment.cc'], [('TCurve::append, point_at', 'resim/curves/t_curve.cc')])
prop('C21', 'Time curves accept only ordered points of one frame and answer within their span',
     'Control points are accepted exactly when their time is later than the last and their frames are those of the curve; a rejected point leaves the curve unchanged. A query is answered exactly when the time lies between the first and last control point of a curve with at least two, NaN being outside; empty curves reject all queries. Start, end and frames are those of the control points, and points of the curve carry its frames.',
     'histories', 'every history of appends and every query time, NaN and infinities included', 'Tests try one violation of each kind.',
     ['resim/curves/t_curve.cc'], [('TCurve::append, point_at_impl', 'resim/curves/t_curve.cc')])
prop('C22', 'Distance curves are parameterised by arc length',
     'The arc length of a distance curve accumulates the travelled distance of its segments from zero; a point at a given arc length is on the geodesic between its neighbouring control points at the proportion of the distance travelled, and control points are reproduced at their arc lengths, also when consecutive control points coincide.',
     'inputs', 'every set of control points and arc length in range', 'Tests use a few fixed curves, none with coincident points.',
     ['resim/curves/d_curve.cc', 'resim/transforms/se3.cc'], [('DCurve::append, point_at', 'resim/curves/d_curve.cc')])
prop('C23', 'Distance curves accept only points of one frame, answer within their length',
     'All control points of a distance curve have the frames of the first; others are rejected and leave the curve unchanged. Arc lengths that are negative, beyond the curve or NaN, and queries of a curve with fewer than two points, are rejected. Points of the curve carry its frames.',
     'histories', 'every history of appends and every arc length', 'Tests try one violation of each kind.',
     ['resim/curves/d_curve.cc'], [('DCurve::append, point_at_impl', 'resim/curves/d_curve.cc')])
prop('C24', 'Rigid body states transform velocities and accelerations correctly',
     'A rigid body state holds a pose and the body-frame linear and angular velocity and acceleration; setting one leaves the others unchanged. Composing states gives the state of the composed motion, and the state of one body relative to another is the motion that composed with the other gives the first; a body is at rest relative to itself. Frames must match on the inside and results carry the outer frames.',
     'inputs', 'every pair of states', 'Tests sample random states against the same two-jet arithmetic.',
     ['resim/actor/state/rigid_body_state.cc'], [('RigidBodyState', 'resim/actor/state/rigid_body_state.cc')])
prop('C25', 'Trajectories keep their control states and timestamps',
     'A trajectory accepts states in strictly increasing order of their timestamps and in the same frames, and rejects others without change. It reproduces each control state at its timestamp, does not depend on the absolute date, answers the same by timestamp and by time since start, and rejects times outside. It starts at its first timestamp and ends at its last to the nanosecond, or at the last nanosecond of a given curve; an empty trajectory rejects queries.',
     'histories', 'every order of timestamps, every state in range', 'Tests use a few fixed times that convert to seconds without loss.',
     ['resim/actor/state/trajectory.cc', 'resim/curves/t_curve.cc', 'resim/time/timestamp.hh'], [('Trajectory', 'resim/actor/state/trajectory.cc')])

prop('C26', 'Everything sent as a message arrives as it was',
     'Packing an id, frame, framed vector, matrix, rotation, pose, two-jet, curve, trajectory, primitive or update into a message and unpacking it gives back an equal object: same numbers, frames, times, order, name and place. What the message held before does not matter, packing into no message is rejected, and no valid object yields a message that is refused.',
     'inputs', 'every object within the bounds, whatever the message held before',
     'Tests round-trip random objects into fresh messages; a field that is not cleared, truncated or swapped needs particular objects or a reused message.',
     ['resim/transforms/proto', 'resim/curves/proto', 'resim/actor/state/proto', 'resim/visualization/proto', 'resim/utils/proto', 'resim/math/proto'],
     [('pack, unpack', 'resim/*/proto/*_to_proto.cc')])
prop('C27', 'Malformed messages are rejected and never misread',
     'A message is accepted exactly when it has the right number of elements in every list, its ids are well formed, its transforms are framed on both sides or on neither, and its curves have ordered points of common frames. Any other message is reported as an error or exception; nothing is read out of bounds and no object is made up for it.',
     'inputs', 'every combination of missing, surplus and malformed parts within the bounds',
     'Tests try a few broken messages per type.',
     ['resim/transforms/proto', 'resim/curves/proto', 'resim/visualization/proto', 'resim/utils/proto'],
     [('unpack', 'resim/*/proto/*_to_proto.cc')])
prop('C28', 'Sample mean and covariance are the unbiased estimates',
     'The mean of a set of samples is the average in each coordinate. The covariance is the sum of the products of the deviations divided by one less than the number of samples, hence symmetric, and stays accurate for samples far from the origin; fewer than two samples are rejected.',
     'inputs', 'every set of samples within the bounds', 'Tests use three samples of perfectly correlated coordinates.',
     ['resim/math/sample_statistics.hh'], [('mean, covariance', 'resim/math/sample_statistics.hh')])
prop('C29', 'Gaussian samples have the requested mean and covariance',
     'Every sample drawn from a Gaussian is its mean plus a fixed matrix times fresh independent standard normal draws, and that matrix times its transpose is the requested covariance, also when it is singular. Each draw uses new random numbers, several samples are independent rows, and means and covariances of different size, asymmetric or not positive semi-definite covariances are rejected.',
     'inputs', 'every mean and covariance within the bounds', 'Tests compare moments of many samples for one covariance within wide tolerances.',
     ['resim/math/multivariate_gaussian.cc', 'resim/math/multivariate_gaussian.hh'], [('Gaussian', 'resim/math/multivariate_gaussian.cc')])
prop('C30', 'Viewed objects are sent exactly once, in order, from any thread',
     'Every object that is viewed reaches the installed client at once, exactly once and unchanged, with its name and the place it was viewed, under an id of its own and, per thread, in the order it was viewed. This holds when several threads view objects at the same time, without data races or deadlock; a failed transmission is reported to the caller and affects no other object.',
     ['schedules', 'histories', 'fault_sequences'], 'every interleaving of two threads, every kind of object and way of viewing, every failing transmission',
     'The tests view objects from one thread with a client that never fails.',
     ['resim/visualization/view.cc', 'resim/visualization/view.hh'], [('View::view_object, View::flush', 'resim/visualization/view.cc')])
prop('C31', 'The view client uses one session and reports the server\'s verdict',
     'A view client creates one session before its first update, strips its identifier of quotes and line ends, and posts each update, complete and under consecutive numbers, to that session with the current credentials. When credentials are refused it renews them and repeats the same request exactly once; success is reported exactly when the server confirmed the update, and a session that could not be created is tried again with the next update, credentials are kept under the home directory, and an empty address is rejected.',
     ['histories', 'fault_sequences'], 'every sequence of server answers within the bounds', 'The tests need a network library and a mock server that always answers the same.',
     ['resim/visualization/client/view_client.cc'], [('ViewClient::send_view_update', 'resim/visualization/client/view_client.cc')])
prop('C32', 'Access tokens are fetched once, kept exactly and forgotten on refresh',
     'A token in memory is used first, then one on disk, and only then is a new one requested and stored; it is returned byte for byte as granted, and refreshing removes it from both places and nothing else. Requesting polls the server with the device code it gave, no faster than asked and never after the code expired, until a token is granted. A refused, malformed, empty or late answer is an exception that leaves no token behind, and the next attempt starts afresh.',
     ['histories', 'fault_sequences', 'inputs'], 'every history of two clients, every sequence of server answers and delays, every token within the bounds',
     'The tests need a network library and sample one server behaviour.',
     ['resim/auth/device_code_client.cc'], [('DeviceCodeClient', 'resim/auth/device_code_client.cc')])

prop('C33', 'Curves and trajectories are values',
     'What a curve or trajectory answers depends only on its control points: not on whether they were given at once or appended one by one, on queries made before or calls that were rejected, or on what happens to copies of it. Appending changes nothing before the appended point, changing a copy leaves the original as it was, and several threads may query the same curve or trajectory at once.',
     ['histories', 'schedules', 'inputs'], 'every history of building, querying, appending and copying within the bounds, at every query time; two threads querying',
     'Tests build each curve once and query it once, from one thread.',
     ['resim/curves/t_curve.cc', 'resim/curves/d_curve.cc', 'resim/actor/state/trajectory.cc'],
     [('append, point_at, constructors', 'resim/curves/t_curve.cc, resim/curves/d_curve.cc, resim/actor/state/trajectory.cc')])
prop('C34', 'Different objects may be used from different threads',
     'The library keeps no hidden state: the result of an operation depends only on its arguments, not on operations performed before it or at the same time on other objects. Poses, jets, curves, trajectories, statistics, sampling, schedules, ids, statuses and messages may each be used by different threads without synchronisation.',
     ['schedules', 'histories'], 'every schedule of two threads working on objects of their own, and the same calls in another order',
     'Tests run in one thread, in one order.',
     ['resim/transforms', 'resim/curves', 'resim/utils', 'resim/time', 'resim/math', 'resim/visualization/proto'],
     [('no static or global mutable state', 'resim/**/*.cc, resim/**/*.hh')])
#@MORE


def main():
    sys.path.insert(0, '/verif')
    import checks
    with open('/verif/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != 'level_note'}) + '\n')
    m = dict(version=1, setup_cmd='python3 run_check.py --setup', checks=[],
             not_applicable=[dict(property=i, reason=r) for i, r in NA],
             notes='No hooks: the checks compile /repo sources unmodified. See DESIGN.md.')
    na = {i for i, _ in NA}
    for p in P:
        if p['id'] in na:
            continue
        c = checks.PROPS[p['id']]
        es = [e for u in c['units'] for e in u['entries']]
        modes = []
        if any(not e.get('real') and not e.get('opts') for e in es):
            modes.append('bit-vectors and IEEE floats')
        if any(e.get('real') for e in es):
            modes.append('exact real arithmetic (polynomial normal form + NRA)')
        if any('--round' in e.get('opts', []) for e in es):
            modes.append('reals with symbolic rounding errors')
        if any('--fpabs' in e.get('opts', []) for e in es):
            modes.append('uninterpreted floating-point operations')
        mode = ', '.join(modes) + (', all thread interleavings' if p['id'] == 'C30' else '')
        m['checks'].append(dict(
            property=p['id'], quick_cmd=f"python3 run_check.py {p['id']}",
            thorough_cmd=f"python3 run_check.py {p['id']} --tier thorough",
            technique='symbolic execution of the LLVM IR of the repository sources, SMT (z3) over ' + mode,
            level='other',
            level_note='bounded symbolic verification: every input within the bounds, each assertion and undefined behaviour decided by the solver; counterexamples replayed natively. Bounds: '
            + c['bounds'] + ('. Assumes: ' + '; '.join(c['assumptions']) if c.get('assumptions') else '')))
    json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
    ids = [p['id'] for p in P]
    assert len(ids) == len(set(ids))
    miss = set(checks.PROPS) - set(ids)
    assert not miss, miss


main()
