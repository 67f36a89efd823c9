"""Regenerates the property table of DESIGN.md (between the TABLE markers) from checks.py and the texts below."""
import os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
HOW = {
 'C01': 'Results compared with the 128-bit mathematical value; exception iff it does not fit.',
 'C02': 'Split and join compared with 128-bit arithmetic in both directions.',
 'C03': 'Error against the exact quotient/product over all roundings of every operation.',
 'C04': 'Reference model (list of outstanding events, minimum by time then age) stepped beside the real queue for every history; the counter is exhausted through a narrow counter type.',
 'C05': 'Minimality stated in 128-bit arithmetic: n-1 steps suffice and n-2 do not.',
 'C06': 'Callback sequence compared with the nearest integer to the rational position, in 128-bit arithmetic.',
 'C07': 'As C06 over rounded reals.',
 'C08': 'Printed text against an independent formatter, accepted strings against the grammar, comparison against the bytes (libuuid modelled, replays link the real one).',
 'C09': 'Chains of fallible calls built from the macros, compared with the first failing position, evaluation counts, texts and locations.',
 'C10': 'Identity of the referenced object, exceptions on empty ones, branch counters of match.',
 'C11': 'For every operation: succeeds iff the frames agree as stated; frames of the result.',
 'C12': 'Rodrigues formula written independently; homogeneous matrices for composition.',
 'C13': 'Conjugation of the hat matrix; commutator.',
 'C14': 'Independent closed forms (Rodrigues, screw motion) and round trips on each branch (series, regular, half turn).',
 'C15': 'Screw motion by the fraction, from an axis/angle parametrisation.',
 'C16': 'Closed forms; series remainder bounds near zero.',
 'C17': 'Product/inverse rule written with 3x3/4x4 matrices and their derivatives.',
 'C18': 'The Hermite polynomials and their derivatives, written from their defining end conditions.',
 'C19': 'End conditions; translation-only segments against Hermite; each factor (and pairs of factors) against the ordered product of exponentials and its derivative by the Leibniz rule.',
 'C20': 'Control two-jets at their times; chain rule for the time scaling; position between by Hermite in real time.',
 'C21': 'Accepted iff strictly later, finite and of the same frames; state unchanged on rejection; queries accepted iff inside.',
 'C22': 'Arc length along straight and screw segments; standing still.',
 'C23': 'As C21 for distance curves.',
 'C24': 'Velocity and acceleration of composed rigid motions from the transport theorem, frames of results.',
 'C25': 'Start/end/duration in integer nanoseconds over all roundings; states at control times; shift invariance; frames.',
 'C26': 'unpack(pack(x)) against x, with the message holding an earlier object; bit equality except where the algebra is transported (log/exp).',
 'C27': 'Grammar of valid messages written in the harness; accepted iff valid; memory safety by the engine.',
 'C28': 'Sums written out.',
 'C29': 'Linearity probe: the draws are chosen so that the map z -> sample is read off column by column; M M^T compared with the covariance. Eigen\'s eigensolver and std::normal_distribution enter by contract.',
 'C30': 'Recording client; every schedule of two threads explored (switches at lock acquisition), vector-clock race detection; races confirmed by ThreadSanitizer, other counterexamples by replaying the schedule on coroutines.',
 'C31': 'The server lives in the harness: it answers every request with a symbolic status and checks address, credentials, body, order and retries.',
 'C32': 'The server, clock and disk live in the harness; reference model of memory/disk token beside the client.',
 'C33': 'Two objects with the same control points and different histories (built at once, appended to, queried, refused, copied) compared at every query; const queries of one object by two threads under vector-clock race detection.',
 'C34': 'The same call before and after other calls; two threads with objects of their own under vector-clock race detection.',
}
def cost(p):
    import json
    try:
        c = json.load(open(f'{V}/evidence/{p}.json'))
        return '%.0f s' % c['wall_s'] if 'wall_s' in c else ''
    except Exception:
        return ''
rows = ['| id | oracle | mode | bounds |', '|---|---|---|---|']
for p in sorted(checks.PROPS):
    c = checks.PROPS[p]
    m = set()
    for u in c['units']:
        for e in u['entries']:
            o = e.get('opts', [])
            m.add('real' if e.get('real') else 'round' if '--round' in o else 'fpabs' if '--fpabs' in o else 'bits')
    rows.append('| %s | %s | %s | %s |' % (p, HOW[p], ', '.join(sorted(m)), c['bounds'].replace('|', '\\|')))
s = open(V + '/DESIGN.md').read()
s = re.sub(r'<!--TABLE-->.*<!--/TABLE-->', lambda _: '<!--TABLE-->\n' + '\n'.join(rows) + '\n<!--/TABLE-->', s, flags=re.S)
import json
bugs = ['| bug | property | what it needs | what it breaks | caught by |', '|---|---|---|---|---|']
hit = {l.split('\t')[0]: l.rstrip('\n').split('\t')[1:] for l in open(V + '/tools/caught.tsv')}
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{b}/meta.json'))
    h = hit.get(b)
    bugs.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['needs'], m['what_it_breaks'], f'{h[0]} `{h[1]}`: {h[2]}' if h else '**missed**'))
s = re.sub(r'<!--BUGS-->.*<!--/BUGS-->', lambda _: '<!--BUGS-->\n' + '\n'.join(bugs) + '\n<!--/BUGS-->', s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
