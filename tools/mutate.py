#!/usr/bin/env python3
"""Mutation campaign over copies of /repo: which small changes do the checks miss?

usage: mutate.py OUT.jsonl [--per-file N] [--jobs J] [--files SUBSTR]
Every mutant is run against the checks whose properties are anchored in its file (SX_REPO points the
check at the copy).  Not part of any registered command.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import checks  # noqa

FILES = {
    'resim/math/safe_integer_utils.cc': ['C01'], 'resim/math/safe_integer_utils.hh': ['C01'],
    'resim/time/timestamp.hh': ['C02', 'C03'], 'resim/time/event_schedule.hh': ['C04'],
    'resim/time/sample_interval.cc': ['C05', 'C06', 'C07'], 'resim/utils/uuid.cc': ['C08'], 'resim/utils/uuid.hh': ['C08'],
    'resim/utils/status.hh': ['C09'], 'resim/utils/status.cc': ['C09'], 'resim/utils/status_value.hh': ['C09'],
    'resim/assert/assert.cc': ['C09'], 'resim/utils/nullable_reference.hh': ['C10'], 'resim/utils/inout.hh': ['C10'], 'resim/utils/match.hh': ['C10'],
    'resim/transforms/frame.hh': ['C11'], 'resim/transforms/framed_vector.hh': ['C11'], 'resim/transforms/liegroup.hh': ['C11', 'C12'],
    'resim/transforms/so3.cc': ['C12', 'C13', 'C14', 'C15', 'C16', 'C11'], 'resim/transforms/se3.cc': ['C12', 'C13', 'C14', 'C15', 'C16', 'C11'],
    'resim/transforms/cross_matrix.cc': ['C13'], 'resim/transforms/liegroup_exp_diff.cc': ['C14', 'C16'],
    'resim/curves/two_jet.cc': ['C17'], 'resim/curves/two_jet.hh': ['C17'], 'resim/curves/quintic_poly_coeffs.cc': ['C18'],
    'resim/curves/t_curve_segment.cc': ['C19'], 'resim/curves/t_curve.cc': ['C20', 'C21'], 'resim/curves/t_curve.hh': ['C20', 'C21'],
    'resim/curves/d_curve.cc': ['C22', 'C23'], 'resim/curves/d_curve.hh': ['C22', 'C23'],
    'resim/actor/state/rigid_body_state.cc': ['C24'], 'resim/actor/state/rigid_body_state.hh': ['C24'], 'resim/actor/state/trajectory.cc': ['C25'],
    'resim/math/proto/matrix_to_proto.hh': ['C26'],
    'resim/math/sample_statistics.hh': ['C28'], 'resim/math/multivariate_gaussian.cc': ['C29'],
    'resim/visualization/view.cc': ['C30'], 'resim/visualization/view.hh': ['C30'],
    'resim/visualization/client/view_client.cc': ['C31'], 'resim/auth/device_code_client.cc': ['C32'],
}
for f in checks.PROTO_SRC:
    if '/proto/' in f:
        FILES[f] = ['C27', 'C26']
SWAPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '),
         (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' and ', ' or '), (r' or ', ' and '), (r' && ', ' || '), (r' \|\| ', ' && '),
         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\binto\b', 'from'), (r'\bfrom\b', 'into'), (r'\bnot ', ''), (r'-(?=[A-Za-z(])', ''),
         (r'\bbegin\(', 'end('), (r'\bback\(', 'front('), (r'\bfront\(', 'back('), (r'\+\+', '--'), (r'\.inverse\(\)', ''), (r'\bd2_', 'd_'),
         (r'\borig', 'dest'), (r'\bdest', 'orig'), (r'\.transpose\(\)', ''), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\bsin\b', 'cos'), (r'\bcos\b', 'sin'),
         (r'(?<![\w.])([0-9]+\.?)(?![\w.])', None)]


def mutants(text):
    res = []
    lines = text.split('\n')
    inc = False
    for i, l in enumerate(lines):
        c = l.split('//')[0]
        if '/*' in c:
            inc = True
        if '*/' in c:
            inc = False
            continue
        if inc or not c.strip() or c.strip().startswith('#') or c.strip().startswith('template') or 'static_assert' in c:
            continue
        for pat, rep in SWAPS:
            for m in re.finditer(pat, c):
                if rep is None:
                    n = m.group(1)
                    r = str(int(n.rstrip('.')) + 1) + ('.' if n.endswith('.') else '')
                else:
                    r = rep
                res.append((i, c[:m.start()] + r + c[m.end():]))
        if re.match(r'^\s+[^(){}]*\S.*;\s*$', c) and not re.match(r'^\s*(return|const|auto|using|constexpr|typename|static|\}|double|int|bool|Eigen|std::|namespace|friend|explicit|virtual)', c) \
                and c.count('(') == c.count(')') and not (i and re.search(r'[(,=+*]\s*$', lines[i - 1].split('//')[0])):
            res.append((i, re.match(r'^\s*', c).group(0) + ';'))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--per-file', type=int, default=6)
    ap.add_argument('--jobs', type=int, default=3)
    ap.add_argument('--files', default='')
    ap.add_argument('--seed', type=int, default=1)
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(l)['key'] for l in open(a.out)}
    todo = []
    for f, props in FILES.items():
        if a.files and not re.search(a.files, f):
            continue
        text = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], capture_output=True, text=True).stdout
        ms = mutants(text)
        rnd.shuffle(ms)
        for i, new in ms[:a.per_file]:
            key = hashlib.sha1((f + str(i) + new).encode()).hexdigest()[:12]
            if key not in done:
                todo.append((key, f, props, i, new))
    rnd.shuffle(todo)
    print(len(todo), 'mutants', flush=True)

    def run(t):
        key, f, props, i, new = t
        d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
        try:
            subprocess.run(['git', '-C', '/repo', 'archive', '--format=tar', '-o', d + '/r.tar', 'HEAD', 'resim'], check=True)
            subprocess.run(['tar', 'xf', d + '/r.tar', '-C', d], check=True)
            p = os.path.join(d, f)
            lines = open(p).read().split('\n')
            old = lines[i]
            lines[i] = new
            open(p, 'w').write('\n'.join(lines))
            res, caught = {}, None
            for pr in props:
                r = subprocess.run([sys.executable, VERIF + '/run_check.py', pr], env=dict(os.environ, SX_REPO=d, SX_JOBS='3', SX_NOEV='1'),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
                res[pr] = r.returncode
                if r.returncode == 1:
                    caught = pr
                    break
                if r.returncode == 2 and 'compile failed' in r.stdout:
                    caught = 'compile'
                    break
                if r.returncode != 0:
                    res[pr + '_out'] = r.stdout[-600:]
                elif 'UNDECIDED' in r.stdout:
                    res[pr + '_undecided'] = [x[:200] for x in r.stdout.splitlines() if 'UNDECIDED' in x][:3]
            return dict(key=key, file=f, line=i + 1, old=old.strip(), new=new.strip(), res=res, caught=caught)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, 'a') as o:
        for r in (x.result() for x in cf.as_completed([ex.submit(run, t) for t in todo])):
            o.write(json.dumps(r) + '\n')
            o.flush()


main()
