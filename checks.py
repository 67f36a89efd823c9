"""Registry: property id -> harness units, entry points, bounds, stubs."""


def E(name, **kw):
    return dict(name=name, **kw)


def R(name, **kw):
    return dict(name=name, real=True, **kw)


PROPS = {}
PROPS['C01'] = dict(
    bounds='all pairs of 64-bit operands; no loop, no bound needed on the inputs',
    units=[dict(harness='c01.cpp', sources=['resim/math/safe_integer_utils.cc'],
                entries=[E('sum'), E('difference'), E('absolute')])])
PROPS['C02'] = dict(
    bounds='every 64-bit nanosecond count and every (int64 seconds, int32 nanoseconds) pair whose joined value is representable',
    units=[dict(harness='c02.cpp', entries=[E('split_join'), E('join_split')])])
PROPS['C04'] = dict(
    bounds='quick: histories of up to 6 schedule/pop operations with up to 4 events, and 5 events scheduled then drained; thorough: 7 operations, 6 events; every 64-bit timestamp; counter exhaustion with an 8-bit counter; one arbitrary event among 240 given ones; 66000 events one after the other',
    units=[dict(harness='c04.cpp', entries=[E('interleaved'), E('drain'), E('exhausted'), E('move_only'), E('crowd'), E('marathon')])])
PROPS['C05'] = dict(
    bounds='every 64-bit start, end and step for the count',
    units=[dict(harness='c05.cpp', sources=['resim/time/sample_interval.cc', 'resim/math/safe_integer_utils.cc'],
                entries=[E('count')])])
PROPS['C06'] = dict(
    bounds='every 64-bit start, end and step giving at most 5 (thorough: 7) samples; 301 samples from every start, forwards and backwards',
    units=[dict(harness='c05.cpp', sources=['resim/time/sample_interval.cc', 'resim/math/safe_integer_utils.cc'],
                entries=[E('samples'), E('many')])])
def RND(name, lin=False, **kw):
    return dict(name=name, opts=['--round'] + (['--abs-round'] if lin else []), **kw)


def ABS(name, **kw):
    return dict(name=name, opts=['--fpabs'], **kw)


ABS_NOTE = 'the results of floating-point arithmetic are unconstrained (over-approximated), comparisons and control flow are exact'
PROPS['C03'] = dict(
    bounds='every 64-bit count; |t| <= 9.2e9 s; round trip for |count| <= 2^50 ns; every rounding of every operation (|delta| <= 2^-53 per operation)',
    units=[dict(harness='c03.cpp', entries=[RND('seconds'), RND('duration'), RND('roundtrip')])])
PROPS['C07'] = dict(
    bounds='start, end in [-1e4, 1e4], step in [1e-6, 1e4] with at most 5 (thorough 7) samples; counts up to 1e12 for the count alone; all roundings; 602 samples from every start as exact reals',
    units=[dict(harness='c07.cpp', sources=['resim/time/sample_interval.cc', 'resim/math/safe_integer_utils.cc'],
                entries=[RND('samples'), RND('rejects'), RND('large'), R('many')])])
UUID_SRC = ['resim/utils/uuid.cc']
UUID_MODEL = ['uuid_model.cpp']
PROPS['C08'] = dict(
    bounds='every 16-byte id and every pair of ids; every byte string of length 0, 1, 32, 35, 36, 37, 38',
    assumptions=['libuuid follows its documentation (model harness/uuid_model.cpp; replays use the real library)',
                 'generated ids are distinct and not null, which is the contract of uuid_generate'],
    units=[dict(harness='c08.cpp', sources=UUID_SRC, model=UUID_MODEL,
                entries=[E('roundtrip'), E('equality'), E('parse36'), E('parse_other'), E('generate')])])
PROPS['C09'] = dict(
    bounds='every int payload; every pass/fail pattern of a chain of 4 calls (3 with values that own memory); 48 file/line/message combinations for the text and five of up to 5000 characters; operands which are temporaries',
    units=[dict(harness='c09.cpp', sources=['resim/utils/status.cc', 'resim/assert/assert.cc'], flags=['-DFMT_HEADER_ONLY'],
                rtflags=['-DSX_REAL_ASSERT'],
                entries=[E('status_text'), E('long_text'), E('propagate'), E('propagate_owning'), E('value_or_status'), E('check_macro'), E('temporaries'), E('reassert')])])
PROPS['C10'] = dict(
    bounds='every int payload; every alternative of a four-way variant, as lvalue, constant lvalue and rvalue',
    units=[dict(harness='c10.cpp', entries=[E('nullable'), E('inout'), E('matching')])])
TF_SRC = ['resim/transforms/so3.cc', 'resim/transforms/se3.cc', 'resim/transforms/cross_matrix.cc',
          'resim/transforms/liegroup_exp_diff.cc']
PROPS['C11'] = dict(
    bounds='every 128-bit id of every frame involved (null included), framed and unframed operands, all constructors; one fixed rotation and translation, and again (entries _any) every rotation matrix, translation, algebra element and fraction with the results of floating-point arithmetic unconstrained',
    assumptions=['libuuid follows its documentation (model harness/uuid_model.cpp)'],
    units=[dict(harness='c11.cpp', sources=TF_SRC + UUID_SRC, model=UUID_MODEL,
                entries=[E(g + '_' + n) for g in ('so3', 'se3') for n in ('construct', 'relabel', 'compose', 'vector', 'interp', 'compare')]
                + [ABS(g + '_' + n + '_any') for g in ('so3', 'se3') for n in ('construct', 'compose', 'vector', 'interp')]
                + [E('se3_owns_frames'), E('framed_vectors'), E('fresh_frames'), E('distances')])])
REAL_NOTE = 'doubles are exact reals in this encoding: the claim is about the formulas, not their rounding'
ANGLES = 'every rotation (axis any unit vector, angle up to a full turn either way)'
PROPS['C12'] = dict(
    bounds=ANGLES + '; translations and vectors in [-1e6, 1e6]^3; associativity for every 3x3 matrix with entries in [-1, 1]',
    assumptions=[REAL_NOTE],
    units=[dict(harness='c12.cpp', sources=TF_SRC + UUID_SRC, model=UUID_MODEL,
                entries=[R(n) for n in ('so3_constructors', 'so3_quaternion', 'so3_group', 'so3_compose', 'se3_action', 'se3_group', 'se3_compose', 'se3_product_inverse')])])
PROPS['C13'] = dict(
    bounds=ANGLES + '; translations in [-1e6, 1e6]^3, algebra elements in [-1e3, 1e3]^6',
    assumptions=[REAL_NOTE],
    units=[dict(harness='c13.cpp', sources=TF_SRC + UUID_SRC, model=UUID_MODEL,
                entries=[R(n) for n in ('cross', 'so3', 'se3', 'se3_algebra', 'se3_product', 'so3_exp')])])
PROPS['C14'] = dict(
    bounds='every axis; angles in [0, 4 pi] (exp), [0, pi - 2e-6] (log of exp), up to a full turn (exp of log); translations in [-1e3, 1e3]^3; tolerance 1e-9',
    assumptions=[REAL_NOTE],
    units=[dict(harness='c14.cpp', sources=TF_SRC + UUID_SRC, model=UUID_MODEL,
                entries=[R(n) for n in ('so3_exp', 'so3_log_exp', 'so3_exp_log', 'se3_exp', 'se3_exp_small', 'se3_exp_zero', 'se3_log_exp', 'se3_log_exp_half_turn', 'se3_log_exp_small', 'se3_exp_log')])])
PROPS['C15'] = dict(
    bounds='every axis; angles in [2e-4, 3] (ends) and [0.1, 3] (fractions); fractions with 0.05 <= |f| <= 3, and 0, 1, -1, 2 and 0.0001 (rotations), 0.03, -25; translations in [-1e3, 1e3]^3; tolerance 1e-9',
    assumptions=[REAL_NOTE],
    units=[dict(harness='c15.cpp', sources=TF_SRC + UUID_SRC, model=UUID_MODEL,
                entries=[R(n) for n in ('so3_ends', 'so3_fraction', 'se3_ends', 'se3_fraction', 'se3_straight', 'so3_odd', 'se3_odd')])])
PROPS['C16'] = dict(
    bounds=ANGLES + '; translations in [-1e6, 1e6]^3 (arc length and differential: [-1e3, 1e3]^3); coefficients for angles up to 12 rad; tolerance 1e-9 (1e-15 in the series range)',
    assumptions=[REAL_NOTE],
    units=[dict(harness='c16.cpp', sources=TF_SRC + UUID_SRC, model=UUID_MODEL,
                entries=[R(n) for n in ('distance', 'arc_length', 'exp_diff', 'exp_diff_small', 'coefficients', 'coefficients_small', 'approx_so3', 'approx_se3')])])
CV_SRC = TF_SRC + UUID_SRC + ['resim/curves/two_jet.cc', 'resim/curves/quintic_poly_coeffs.cc', 'resim/curves/t_curve_segment.cc', 'resim/curves/t_curve.cc']
PROPS['C17'] = dict(
    bounds=ANGLES + '; translations and derivatives in [-1e3, 1e3] per component; tolerance 1e-6',
    assumptions=[REAL_NOTE],
    units=[dict(harness='c17.cpp', sources=TF_SRC + UUID_SRC + ['resim/curves/two_jet.cc'], model=UUID_MODEL,
                entries=[R(g + '_' + n) for g in ('so3', 'se3') for n in ('product_l', 'product_r', 'inverse_l', 'inverse_r', 'convert', 'members', 'approx_l', 'approx_r')])])
PROPS['C18'] = dict(
    bounds='every normalized time in [-1, 2]; exact',
    assumptions=[REAL_NOTE],
    units=[dict(harness='c18.cpp', sources=['resim/curves/quintic_poly_coeffs.cc'], entries=[R('basis'), R('ends')])])
PROPS['C19'] = dict(
    bounds='ends: every origin, relative rotations up to a half turn, derivatives in [-1e3, 1e3]; relative motions of the sizes 1e-2, 1e-3, 1e-5, 1e-8; translation-only segments and single generators: every time in [0, 1]; pairs of generators: entries in [-1, 1], times 1/4, 1/2, 3/4',
    assumptions=[REAL_NOTE],
    units=[dict(harness='c19.cpp', sources=CV_SRC, model=UUID_MODEL,
                entries=[R(n) for n in ('so3_ends', 'se3_ends', 'straight', 'so3_pairs', 'se3_pairs', 'so3_single', 'se3_single', 'so3_all', 'se3_all', 'so3_tiny', 'se3_tiny')])])
PROPS['C20'] = dict(
    bounds='three control points at every time in [-1e3, 3e3] with gaps in [1e-6, 1e3]; query at every time of the curve (translation-only) and at the control times (every relative rotation up to a half turn); derivatives in [-1e3, 1e3]; one given curve of 13 control points at every time; tolerance 1e-7',
    assumptions=[REAL_NOTE],
    units=[dict(harness='c20.cpp', sources=CV_SRC, model=UUID_MODEL,
                entries=[R(n) for n in ('straight', 'so3_controls', 'se3_controls', 'long_straight')])])
PROPS['C21'] = dict(
    bounds='histories of three appends with every IEEE double time (NaN and infinities included) and every pair of frames; queries at every IEEE double time on curves of one, two, three and thirteen control points, and an append to the last',
    units=[dict(harness='c20.cpp', sources=CV_SRC, model=UUID_MODEL,
                entries=[ABS(g + '_' + n) for n in ('append', 'outside', 'framed', 'lists') for g in ('so3', 'se3')] + [R('so3_inside'), R('se3_inside'), ABS('long_append'), ABS('long_outside')])])
DC_SRC = TF_SRC + UUID_SRC + ['resim/curves/d_curve.cc']
PROPS['C22'] = dict(
    bounds='straight curves: every triple of points in [-1e3, 1e3]^3 at least 0.01 apart and every arc length; turning curves: three concrete relative rotations, every translation in [-1e3, 1e3]^3, at the control points and at a quarter, half and three quarters between; standing still; one given way of 13 points along the axes at every arc length; tolerance 1e-6',
    assumptions=[REAL_NOTE],
    units=[dict(harness='c22.cpp', sources=DC_SRC, model=UUID_MODEL,
                entries=[R(n) for n in ('straight', 'geodesic', 'standstill', 'long_straight')])])
PROPS['C23'] = dict(
    bounds='histories of three appends with every pair of frames; queries at every IEEE double outside the curve, for one, two, three and thirteen control points, and an append to the last',
    assumptions=[ABS_NOTE],
    units=[dict(harness='c22.cpp', sources=DC_SRC, model=UUID_MODEL,
                entries=[ABS(n) for n in ('append', 'outside', 'framed', 'lists', 'long_append', 'long_outside')])])
AC_SRC = CV_SRC + ['resim/actor/state/rigid_body_state.cc']
PROPS['C24'] = dict(
    bounds=ANGLES + '; translations, velocities and accelerations in [-1e3, 1e3] per component; every four frames; tolerance 1e-6',
    assumptions=[REAL_NOTE],
    units=[dict(harness='c24.cpp', sources=AC_SRC, model=UUID_MODEL,
                entries=[R(n) for n in ('compose', 'inverse_times', 'members')] + [E('frames')])])
TR_SRC = AC_SRC + ['resim/actor/state/trajectory.cc']
PROPS['C25'] = dict(
    bounds='timestamps up to 2^50 ns (13 days) apart, starts up to 2^60 ns either way; curves ending at any time in [1e-6, 1e6] s; every relative rotation up to a half turn, translations and derivatives in [-1e3, 1e3]; every four frames; all roundings for the time arithmetic; one given trajectory of 13 control points at any date',
    assumptions=[REAL_NOTE],
    units=[dict(harness='c25.cpp', sources=TR_SRC, model=UUID_MODEL,
                entries=[RND('ends', lin=True), E('ends_short'), RND('ends_curve', lin=True), RND('order', lin=True), E('shifted'), E('many'), E('lists'), R('controls'), E('frames'), E('empty')])])
PROPS['C33'] = dict(
    bounds='curves of two, three and four control points: translation-only time curves with every position and velocity in [-1e3, 1e3] and every pair of query times, distance curves with every pair of lengths in [0.01, 10] and every pair of query positions, trajectories at twelve pairs of timestamps; built in four ways, copied, moved, appended to, and after rejected calls; two threads querying the same objects; tolerance 1e-9',
    assumptions=[REAL_NOTE],
    units=[dict(harness='c33.cpp', sources=TR_SRC + ['resim/curves/d_curve.cc'], model=UUID_MODEL,
                entries=[R(n) for n in ('t_curve', 'd_curve', 'trajectory', 'failed')] + [E('threads')])])
PROTO_SRC = TR_SRC + ['resim/curves/d_curve.cc', 'resim/utils/status.cc', 'resim/assert/assert.cc'] + [
    'resim/' + p for p in (
        'utils/proto/uuid_to_proto.cc', 'transforms/proto/frame_3_to_proto.cc', 'transforms/proto/framed_vector_3_to_proto.cc',
        'transforms/proto/liegroup_to_proto.cc', 'transforms/proto/se3_to_proto.cc', 'transforms/proto/so3_to_proto.cc',
        'curves/proto/two_jet_to_proto.cc', 'curves/proto/two_jetl_se3_to_proto.cc', 'curves/proto/two_jetl_so3_to_proto.cc',
        'curves/proto/two_jetr_se3_to_proto.cc', 'curves/proto/two_jetr_so3_to_proto.cc', 'curves/proto/t_curve_to_proto.cc',
        'curves/proto/t_curve_se3_to_proto.cc', 'curves/proto/t_curve_so3_to_proto.cc', 'curves/proto/d_curve_to_proto.cc',
        'curves/proto/d_curve_se3_to_proto.cc', 'actor/state/proto/trajectory_to_proto.cc',
        'visualization/proto/view_primitive_to_proto.cc', 'visualization/proto/view_update_to_proto.cc')]
PROTO_SRC = [s for s in PROTO_SRC if not s.endswith('assert/assert.cc')]
PROTOS = ['resim/visualization/proto/view_update.proto']
PROTO_NOTE = 'generated message classes behave as their documentation says (presence, oneof, repeated fields, Clear); the wire format is not encoded, a serialized message parses back to itself (protomodel.py)'
PROPS['C26'] = dict(
    bounds='every 128-bit id and frame, every double in vectors, matrices (up to 3x4, and 6x6 and 9x4 with six arbitrary elements) and derivatives bit for bit; rotations up to a half turn less 1e-6 (poses: from 0.001 rad, translations in [-1e3, 1e3]) as reals with tolerance 1e-7; curves and trajectories of 2 to 3 points with every time and start; names and files of up to 2 arbitrary ASCII characters and one of 1000; updates of up to 3 primitives, and of 40 with one arbitrary; given curves of 9 to 17 points; messages fresh or holding an earlier object',
    assumptions=[REAL_NOTE, PROTO_NOTE],
    units=[dict(harness='c26.cpp', sources=PROTO_SRC, model=UUID_MODEL, protos=PROTOS, flags=['-DFMT_HEADER_ONLY'],
                entries=[E(n) for n in ('uuids', 'frames', 'framed_vectors', 'matrices', 'so3_frames', 'se3_frames', 'jetl_so3', 'jetr_so3', 'jetl_se3', 'jetr_se3', 'dcurve', 'primitives', 'updates', 'long_dcurve', 'long_update')]
                + [R(n) for n in ('so3', 'se3', 'dcurve_points')] + [ABS(n) for n in ('tcurve_so3', 'tcurve_se3', 'trajectory', 'long_tcurve')])])
PROPS['C27'] = dict(
    bounds='0 to one more than the proper number of elements in every repeated field; every presence pattern and every combination of null, proper, malformed, empty and absent frames; every 36-character id; curves of up to 3 points with every combination of times; one fault per payload of a primitive or update',
    assumptions=[PROTO_NOTE],
    units=[dict(harness='c27.cpp', sources=PROTO_SRC, model=UUID_MODEL, protos=PROTOS, flags=['-DFMT_HEADER_ONLY'],
                entries=[E(n) for n in ('so3', 'se3', 'jetl_so3', 'jetl_se3', 'jetr_so3', 'jetr_se3', 'frames', 'framed_vectors', 'dcurve', 'primitives', 'updates')]
                + [ABS(n) for n in ('tcurve_so3', 'tcurve_se3')])])
PROPS['C34'] = dict(
    bounds='one call of each operation per thread, two threads, with fixed values: every unsynchronised pair of conflicting accesses and every difference to the sequential results is reported; histories of three calls of each numerical operation with every pair of arguments in a one-parameter family, as exact reals',
    assumptions=['context switches happen in front of lock acquisitions; accesses not ordered by locks are reported as data races', PROTO_NOTE, 'libuuid keeps no state of its own'],
    units=[dict(harness='c34.cpp', sources=PROTO_SRC + ['resim/time/sample_interval.cc', 'resim/math/safe_integer_utils.cc'], model=UUID_MODEL, protos=PROTOS, flags=['-DFMT_HEADER_ONLY'],
                entries=[E('math_threads'), E('message_threads'), R('group_calls'), R('curve_calls')])])
PROPS['C28'] = dict(
    bounds='0 to 5 samples of dimension 1 to 3, every value in [-1000, 1000], and 40 of dimension 7 with three arbitrary values, as exact reals; with rounding: two samples at up to 1e6 from the origin, 1 to 2 apart',
    assumptions=[REAL_NOTE + ' (except far_away, where every operation may round either way)'],
    units=[dict(harness='c28.cpp', entries=[R('means'), R('covariances'), R('many'), RND('far_away', lin=True)])])
PROPS['C29'] = dict(
    bounds='dimensions 1 to 3 (and 20 samples in dimension 6 with one arbitrary mean and variance); every mean in [-1e6, 1e6] and every covariance given by eigenvalues in [0, 1e4] (definiteness: [-1e4, 1e4]) and any rotation of the axes (one in dimension 3); asymmetric 2x2 matrices with entries in [-1e4, 1e4] and relative asymmetry above 1e-6; the draws of the standard normal distribution are fixed numbers',
    assumptions=[REAL_NOTE, 'Eigen\'s SelfAdjointEigenSolver returns a decomposition of the matrix it is given (contract harness/shadow_eigen; replays use Eigen\'s own)', 'std::normal_distribution(m, s) yields m + s z for independent standard draws z (contract harness/shadow_random)'],
    units=[dict(harness='c29.cpp', sources=['resim/math/multivariate_gaussian.cc'], shadow=['shadow_eigen', 'shadow_random'], natshadow=['shadow_random'],
                bcflags=['-DSX_EIGEN_MODEL'],
                entries=[R(n) for n in ('sampling1', 'sampling2', 'sampling3', 'many', 'dimensions', 'symmetric', 'definite')])])
PROPS['C30'] = dict(
    bounds='two objects of each of the seven kinds in each of four ways of viewing; 24 objects one after the other; empty, long and 2-byte names, every line number; one failed transmission out of three; two threads viewing one to two objects each (thorough: two each) under every interleaving at lock acquisitions, with every unsynchronised pair of conflicting accesses reported',
    assumptions=['context switches happen in front of lock acquisitions; accesses not ordered by locks are reported as data races', 'the network client is a recording one and libuuid a model of its documentation'],
    units=[dict(harness='c30.cpp', sources=TR_SRC + ['resim/curves/d_curve.cc', 'resim/utils/status.cc', 'resim/visualization/view.cc'], model=UUID_MODEL,
                protos=['resim/visualization/proto/view_update.proto'], flags=['-DFMT_HEADER_ONLY'], natflags=['-DSX_COOP_MUTEX'],
                entries=[E(n) for n in ('sequence', 'many', 'names', 'failures', 'clients', 'threads', 'threads_more')])])

PROPS['C32'] = dict(
    bounds='expiry in [-1, 7] s and interval in [0, 4] s (thorough: 12 and 6) with requests that take 1 s; every sequence of pending, granted, empty and malformed answers; every HTTP status in [-1, 599]; tokens of 1 to 3 (thorough: 4) arbitrary bytes, and of up to 5000 bytes with two arbitrary ones, after 100 polls; every history of 4 (thorough: 6) operations of two clients sharing a token file',
    assumptions=['the HTTP library hands over the request it was given, files and directories behave as documented, the clock moves only during requests and waits (contracts harness/shadow_net, harness/shadow_io)', PROTO_NOTE, 'JSON text is not encoded: printing a message and parsing the text gives the message back, anything else is refused'],
    units=[dict(harness='c32.cpp', sources=['resim/auth/device_code_client.cc'], protos=['resim/auth/proto/auth_messages.proto'],
                natprotos='model', shadow=['shadow_net', 'shadow_io'],
                entries=[E(n) for n in ('polling', 'refused', 'exact', 'loaded', 'lengthy', 'history')])])

PROPS['C31'] = dict(
    bounds='three updates (thorough: four) with every HTTP status in [-1, 599] for every request; 24 (thorough: 130) updates with one arbitrary answer; updates of 0 to 3 and of 40 primitives; every session answer of 3 (thorough: 4) bytes',
    assumptions=['the HTTP library hands over the request it was given (contract harness/shadow_net)', PROTO_NOTE, 'JSON text is not encoded: printing a message and parsing the text gives the message back, anything else is refused'],
    units=[dict(harness='c31.cpp', sources=PROTO_SRC + ['resim/visualization/client/view_client.cc'],
                model=UUID_MODEL, protos=['resim/visualization/proto/view_update.proto', 'resim/visualization/client/proto/view_client.proto'],
                flags=['-DFMT_HEADER_ONLY'], bcflags=['-DSX_BC'], shadow=['shadow_net'], natprotos='model',
                entries=[E(n) for n in ('answers', 'many', 'content', 'session', 'setup')])])
