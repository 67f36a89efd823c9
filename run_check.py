#!/usr/bin/env python3
"""Decides one property by symbolic execution of the repository's current source.

usage: run_check.py ID [--tier quick|thorough] [--only ENTRY] [-v]

exit 0: every obligation discharged; exit 1: a counterexample was found by the
solver and reproduced against the natively compiled code; exit 2: no answer.
"""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, VERIF)
import checks  # noqa: E402

CXX = 'clang++-14'
STD = ['-nostdinc++', '-cxx-isystem', '/usr/include/c++/12', '-cxx-isystem', '/usr/include/x86_64-linux-gnu/c++/12',
       '-std=c++20', '-fPIC', '-w']
BCFLAGS = ['-O1', '-fwrapv', '-fno-pie', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-DEIGEN_DONT_VECTORIZE',
           '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-unroll-loops', '-ffp-contract=off', '-U_FORTIFY_SOURCE',
           '-fno-builtin-memcmp', '-fno-builtin-strlen', '-emit-llvm', '-c']
NATFLAGS = ['-O0', '-g', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr,function,alignment',
            '-fno-sanitize-recover=undefined,float-cast-overflow', '-c']
LIBS = ['-lfmt', '-lglog', '-lprotobuf', '-luuid', '-pthread']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(VERIF, 'engine'))):
        h.update(open(os.path.join(VERIF, 'engine', f), 'rb').read())
    exe = os.path.join(BUILD, 'symx-' + h.hexdigest()[:16])
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            for f in os.listdir(BUILD):
                if f.startswith('symx-'):
                    os.remove(os.path.join(BUILD, f))
            r = sh(['bash', os.path.join(VERIF, 'engine', 'build.sh'), exe + '.tmp'])
            if r.returncode != 0:
                print(r.stdout)
                raise SystemExit(2)
            os.rename(exe + '.tmp', exe)
    return exe


class Inconclusive(Exception):
    pass


class Unit:
    """One harness file with the repository sources it needs."""

    def __init__(self, work, spec):
        self.work, self.spec = work, spec
        self.name = os.path.splitext(spec['harness'])[0]
        self.inc = ['-I' + os.path.join(VERIF, 'harness', i) for i in spec.get('shadow', [])]
        self.ninc = ['-I' + os.path.join(VERIF, 'harness', i) for i in spec.get('natshadow', spec.get('shadow', []))]
        self.gen = os.path.join(work, 'gen_' + self.name)
        if spec.get('protos'):
            import protomodel
            try:
                self.protos = protomodel.generate(REPO, spec['protos'], self.gen)
            except (ValueError, KeyError) as e:
                raise Inconclusive('cannot model the messages: %s' % e)
            self.inc += ['-I' + self.gen]
            self.ninc += ['-I' + self.gen + ('' if spec.get('natprotos') == 'model' else '_nat')]
        common = ['-I' + os.path.join(VERIF, 'harness'), '-I' + REPO, '-I/usr/include/eigen3']
        self.inc += common
        self.ninc += common
        self.nat = None

    def srcs(self):
        s = [(os.path.join(REPO, p), p) for p in self.spec.get('sources', [])]
        s += [(os.path.join(VERIF, 'harness', p), p) for p in self.spec.get('extra', [])]
        return s

    def cc(self, src, out, flags):
        inc = self.inc if '-emit-llvm' in flags else self.ninc
        if src == os.path.join(VERIF, 'harness', 'native.cpp'):
            inc = ['-I' + os.path.join(VERIF, 'harness')]
        cmd = [CXX] + STD + flags + self.spec.get('flags', []) + inc + [src, '-o', out]
        r = sh(cmd, cwd=REPO)
        if r.returncode != 0:
            raise Inconclusive('compile failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
        return out

    def bitcode(self, pool):
        jobs = []
        base = os.path.join(self.work, self.name)
        os.makedirs(base, exist_ok=True)
        h = os.path.join(VERIF, 'harness', self.spec['harness'])
        items = [(h, 'H.bc', [])] + [(a, 'S%d.bc' % i, []) for i, (a, _) in enumerate(self.srcs())]
        items += [(os.path.join(VERIF, 'harness', m), 'M%d.bc' % i, []) for i, m in enumerate(self.spec.get('model', []))]
        items.append((os.path.join(VERIF, 'harness', 'rt.cpp'), 'rt.bc', ['-fno-builtin'] + self.spec.get('rtflags', [])))
        outs = []
        for src, o, fl in items:
            out = os.path.join(base, o)
            outs.append(out)
            jobs.append(pool.submit(self.cc, src, out, BCFLAGS + ['-Xclang', '-disable-llvm-passes'] + self.spec.get('bcflags', []) + fl))
        for j in jobs:
            j.result()
        mod = os.path.join(base, 'mod.bc')
        # Optimize after linking: a template instantiated implicitly in one unit and used from
        # another must survive until then, as it does in the repository's own (-O0) build.
        r = sh(['llvm-link-14', '-o', mod + '.l'] + outs)
        if r.returncode == 0:
            r = sh(['opt-14', '-passes=lto-pre-link<O1>', '-vectorize-loops=false', '-vectorize-slp=false', mod + '.l', '-o', mod + '.0'])
        if r.returncode != 0:
            raise Inconclusive('link failed: ' + r.stdout[-3000:])
        r = sh(['opt-18', '-passes=' + self.spec.get('passes', 'function(scalarizer)'), mod + '.0', '-o', mod])
        if r.returncode != 0:
            raise Inconclusive('opt failed: ' + r.stdout[-3000:])
        self.mod = mod
        return mod

    def native_objs(self, pool):
        if self.nat is None:
            base = os.path.join(self.work, self.name, 'nat')
            os.makedirs(base, exist_ok=True)
            h = os.path.join(VERIF, 'harness', self.spec['harness'])
            items = [(h, 'H.o')] + [(a, 'S%d.o' % i) for i, (a, _) in enumerate(self.srcs())]
            if not any(p == 'resim/assert/assert.cc' for _, p in self.srcs()):
                items.append((os.path.join(REPO, 'resim/assert/assert.cc'), 'assert.o'))
            items += [(os.path.join(VERIF, 'harness', m), 'N%d.o' % i) for i, m in enumerate(self.spec.get('native', []))]
            if self.spec.get('protos') and self.spec.get('natprotos') != 'model':
                import protomodel
                items += [(s, 'P%d.o' % i) for i, s in enumerate(protomodel.generate_native(REPO, self.protos, self.gen + '_nat'))]
            self.nat_items = items
            jobs = [pool.submit(self.cc, s, os.path.join(base, o), NATFLAGS + self.spec.get('natflags', [])) for s, o in items]
            self.nat = [j.result() for j in jobs]
        return self.nat

    def native(self, pool, entry):
        objs = self.native_objs(pool)
        base = os.path.join(self.work, self.name, 'nat')
        exe = os.path.join(base, 'replay_' + entry)
        if not os.path.exists(exe):
            n = self.cc(os.path.join(VERIF, 'harness', 'native.cpp'), exe + '.o',
                        NATFLAGS + ['-DSX_MAIN=' + entry] + self.spec.get('natflags', []))
            r = sh([CXX, '-fsanitize=address,undefined', n] + objs + ['-o', exe] + LIBS)
            if r.returncode != 0:
                raise Inconclusive('native link failed: ' + r.stdout[-3000:])
        return exe

    def tsan(self, pool, entry):
        """The same program with real threads, under ThreadSanitizer: confirms a data race."""
        base = os.path.join(self.work, self.name, 'tsan')
        exe = os.path.join(base, 'replay_' + entry)
        if not os.path.exists(exe):
            self.native_objs(pool)  # generates the protocol buffer classes
            os.makedirs(base, exist_ok=True)
            fl = ['-O0', '-g', '-DSX_TSAN', '-c']
            jobs = [pool.submit(self.cc, s, os.path.join(base, o), fl + ['-fsanitize=thread']) for s, o in self.nat_items]
            objs = [j.result() for j in jobs]
            n = self.cc(os.path.join(VERIF, 'harness', 'native.cpp'), exe + '.o', fl + ['-DSX_MAIN=' + entry])
            r = sh([CXX, '-fsanitize=thread', n] + objs + ['-o', exe] + LIBS)
            if r.returncode != 0:
                raise Inconclusive('native link failed: ' + r.stdout[-3000:])
        return exe


def run_native(exe, values, out, tier):
    with open(out, 'w') as f:
        for k, v in values.items():
            f.write('%s\t%s\n' % (k, v))
    env = dict(os.environ, SX_VALUES=out, SX_TIER=tier, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0')
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, errors='replace', text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -1, 'timeout (60 s)'


STOP = {'at': None}      # set once a violation is confirmed: running entries get a short grace
DEADLINE = {'at': None}  # quick tier: everything is decided, or reported undecided, by then
GRACE = 20


def run_symx(exe, unit, entry, opts, tier, budget, work, verbose):
    if STOP['at']:
        return {'entry': entry, 'skipped': True}
    if DEADLINE['at']:
        budget = int(min(budget, DEADLINE['at'] - time.time()))
        if budget < 5:
            return {'entry': entry, 'undecided': ['time limit of the whole check'], 'asserts': 0, 'late': True}
    out = os.path.join(work, unit.name + '_' + entry + '.json')
    cmd = [exe, '--entry', entry, '--out', out, '--tmp', work, '--total-s', str(budget), '--seed', os.environ.get('VERIF_SEED', '1')]
    cmd += opts
    if verbose:
        cmd.append('-v')
    cmd.append(unit.mod)
    env = dict(os.environ, SX_TIER=tier)
    log = open(out + '.err', 'w+', errors='replace')
    r = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=None if verbose else log, start_new_session=True)
    end = time.time() + budget + (60 if tier == 'quick' else 120)
    while True:
        try:
            r.wait(0.5)
            break
        except subprocess.TimeoutExpired:
            pass
        if STOP['at'] and time.time() > STOP['at'] + GRACE:
            os.killpg(r.pid, 9)
            r.wait()
            return {'entry': entry, 'skipped': True}
        if time.time() > end:
            os.killpg(r.pid, 9)
            r.wait()
            return {'entry': entry, 'undecided': ['time limit (the solver did not return)'], 'asserts': 0, 'late': True}
    if r.returncode != 0 or not os.path.exists(out):
        log.seek(0)
        return {'entry': entry, 'crash': 'engine exit %s: %s' % (r.returncode, log.read()[-800:])}
    try:
        return json.load(open(out))
    except Exception as e:  # noqa
        return {'entry': entry, 'crash': 'bad report: %s' % e}


def known(prop):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    res.append(d)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--setup', action='store_true', help='build the engine only')
    ap.add_argument('--replay', help='replay a recorded counterexample natively')
    ap.add_argument('--tier', default=os.environ.get('SX_FORCE_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.setup:
        print(build_engine())
        return
    if a.replay:
        sys.exit(replay(a.replay))
    t0 = time.time()
    spec = checks.PROPS[a.id]
    tier = a.tier
    if tier == 'quick':
        DEADLINE['at'] = time.time() + 720
    exe = build_engine()
    work = tempfile.mkdtemp(prefix='sx_%s_' % a.id, dir='/tmp')
    status, violations, notes, results, undecided = 0, [], [], [], []
    try:
        pool = cf.ThreadPoolExecutor(8)
        spool = cf.ThreadPoolExecutor(int(os.environ.get('SX_JOBS', '8')))
        units = []
        for us in spec['units']:
            if a.only and not any(e['name'] == a.only for e in us['entries']):
                continue
            try:
                units.append(Unit(work, us))
            except Inconclusive as e:
                notes.append(str(e))
                status = 2
        def prep(u):
            u.bitcode(pool)
            return u
        upool = cf.ThreadPoolExecutor(8)
        futs = {}
        prepd = {u: upool.submit(prep, u) for u in units}
        for u in units:
            try:
                prepd[u].result()
            except Inconclusive as e:
                notes.append(str(e))
                status = 2
                continue
            for e in u.spec['entries']:
                if a.only and e['name'] != a.only:
                    continue
                if e.get('tier') == 'thorough' and tier != 'thorough':
                    continue
                opts = list(e.get('opts', [])) + (['--real'] if e.get('real') else [])
                if tier == 'thorough':
                    opts += e.get('thorough_opts', [])
                budget = e.get('budget', 400) if tier == 'quick' else e.get('thorough_budget', 3000)
                futs[spool.submit(run_symx, exe, u, e['name'], opts, tier, budget, work, a.v)] = (u, e)
        kf = known(a.id)
        seen_known = set()
        for f in cf.as_completed(futs):
            u, e = futs[f]
            r = f.result()
            r['unit'] = u.name
            if r.get('skipped'):
                notes.append('%s: not explored, the violation above was found first' % e['name'])
                continue
            results.append(r)
            if r.get('crash'):
                notes.append('%s: %s' % (e['name'], r['crash']))
                status = status or 2
                continue
            confirmed_any = False
            unconfirmed = []
            for fail in r.get('failures', []):
                ok = False
                for i, c in enumerate(fail['candidates']):
                    try:
                        nexe = u.native(pool, e['name'])
                    except Inconclusive as ex:
                        notes.append(str(ex))
                        break
                    vf = os.path.join(work, '%s_%s_%d.values' % (u.name, e['name'], len(violations) * 100 + i))
                    rc, out = run_native(nexe, c, vf, tier)
                    if os.environ.get('SX_CANDS'): print(rc, c)
                    if rc in (0, 77) and fail['msg'].startswith('data race'):
                        try:
                            texe = u.tsan(pool, e['name'])
                        except Inconclusive as ex:
                            notes.append(str(ex))
                            break
                        for _ in range(20):
                            trc, tout = run_native(texe, c, vf, tier)
                            if 'WARNING: ThreadSanitizer: data race' in tout:
                                rc, out = 66, 'SX-FAIL data race (reported by ThreadSanitizer)\n' + tout
                                break
                    if rc not in (0, 77):
                        ok = True
                        first = next((l for l in out.splitlines() if l.startswith('SX-FAIL') or 'ERROR:' in l or 'runtime error' in l), 'exit %d' % rc)
                        hit = None
                        for k in kf:
                            if k['entry'] == e['name'] and re.search(k['match'], first) and all(
                                    eval(cond, {}, {'v': c}) for cond in k.get('when', [])):
                                hit = k
                        if hit:
                            if hit['id'] not in seen_known:
                                seen_known.add(hit['id'])
                                print('KNOWN-FINDING: property=%s %s' % (a.id, hit['what']))
                            break
                        rep = save_replay(a.id, u, e['name'], c, first, fail, out, len(violations), tier)
                        violations.append({'entry': e['name'], 'message': fail['msg'], 'location': fail['loc'],
                                           'native': first, 'inputs': c, 'replay': rep})
                        print('VIOLATION property=%s replay=%s' % (a.id, rep))
                        print('  %s [%s] %s' % (e['name'], fail['msg'], first))
                        sys.stdout.flush()
                        if tier == 'quick' and not STOP['at']:
                            STOP['at'] = time.time()
                        break
                if ok:
                    confirmed_any = True
                else:
                    unconfirmed.append(fail)
            for fail in unconfirmed:
                if fail['verdict'] == 'sat' and not (e.get('real') or set(e.get('opts', [])) & {'--round', '--fpabs'}):
                    notes.append('%s: counterexample not reproduced natively: %s at %s' % (e['name'], fail['msg'], fail['loc']))
                    status = status or 2
                    continue
                undecided.append('%s: not decided (solver: %s, no candidate reproduced natively): %s at %s; %d candidates' % (
                    e['name'], fail['verdict'], fail['msg'], fail['loc'], len(fail['candidates'])))
            for x in r.get('engine_errors', []):
                notes.append('%s: engine: %s' % (e['name'], x))
                status = status or 2
            for x in r.get('undecided', []):
                undecided.append('%s: undecided: %s' % (e['name'], x))
            if not confirmed_any and not unconfirmed and not r.get('undecided'):
                for x in r.get('unreached', []):
                    if x in e.get('may_miss', []):
                        continue
                    notes.append('%s: vacuous: label "%s" never reached' % (e['name'], x))
                    status = status or 2
            if r.get('asserts', 0) == 0 and not r.get('failures') and not e.get('no_asserts') and not r.get('late'):
                notes.append('%s: no assertion evaluated' % e['name'])
                status = status or 2
        if violations:
            status = 1
        notes += ['UNDECIDED ' + x for x in undecided]
        if os.environ.get('SX_STRICT') and undecided:
            status = status or 2
        evidence(a.id, spec, tier, results, violations, notes, time.time() - t0, status)
        for n in notes:
            print('note: ' + n)
        tot = lambda k: sum(r.get(k, 0) for r in results)
        print('%s %s: status=%d entries=%d paths=%d queries=%d solver_s=%.1f asserts=%d wall=%.1f' % (
            a.id, tier, status, len(results), tot('paths'), tot('queries'), tot('solver_s'), tot('asserts'), time.time() - t0))
    finally:
        if a.keep:
            print('work: ' + work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(status)


def replay(path):
    r = json.load(open(path))
    spec = checks.PROPS[r['property']]
    us = next(u for u in spec['units'] if u['harness'] == r['unit'])
    work = tempfile.mkdtemp(prefix='sx_replay_', dir='/tmp')
    try:
        u = Unit(work, us)
        exe = u.native(cf.ThreadPoolExecutor(8), r['entry'])
        rc, out = run_native(exe, r['inputs'], os.path.join(work, 'values'), r.get('tier', 'quick'))
        if rc in (0, 77) and r['solver_failure']['msg'].startswith('data race'):
            texe = u.tsan(cf.ThreadPoolExecutor(8), r['entry'])
            for _ in range(20):
                trc, out = run_native(texe, r['inputs'], os.path.join(work, 'values'), r.get('tier', 'quick'))
                if 'WARNING: ThreadSanitizer: data race' in out:
                    rc = 66
                    break
        print(out)
        print('exit status %d (0: the property holds for these inputs on the current tree)' % rc)
        return 1 if rc not in (0, 77) else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def save_replay(prop, unit, entry, cand, first, fail, out, n, tier):
    d = os.path.join(VERIF, 'evidence', 'replay', prop)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s_%d.json' % (entry, n))
    json.dump({'property': prop, 'unit': unit.spec['harness'], 'entry': entry, 'inputs': cand, 'native_result': first,
               'solver_failure': {k: fail[k] for k in ('msg', 'loc', 'kind', 'verdict')}, 'native_output': out[-4000:],
               'tier': tier, 'how': 'python3 /verif/replay.py ' + p}, open(p, 'w'), indent=1)
    return p


def evidence(prop, spec, tier, results, violations, notes, wall, status):
    tot = lambda k: sum(r.get(k, 0) for r in results)
    fns = sorted({f for r in results for f in r.get('functions', [])})
    stubs = sorted({f for r in results for f in r.get('stubs', [])})
    ents = []
    for r in sorted(results, key=lambda r: r['entry']):
        ents.append({k: r.get(k) for k in ('entry', 'mode', 'paths', 'steps', 'queries', 'sat', 'unsat', 'unknown', 'external_queries',
                                            'asserts', 'assert_queries', 'identities', 'solver_s', 'wall_s', 'reached', 'assertions',
                                            'undecided', 'engine_errors', 'crash') if r.get(k) not in (None, [], {})})
    discharged = sum(r.get('asserts', 0) for r in results) - sum(len(r.get('failures', [])) for r in results)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': 'Bounded symbolic execution of the LLVM bitcode compiled from the current sources; every branch and '
                           'assertion decided by SMT (z3 5.3, portfolio z3-new/cvc5) over all input values within the bounds.',
            'bounds': spec['bounds'], 'outside': spec.get('outside', ''),
            'functions_encoded': fns, 'stubs': stubs, 'queries': tot('queries'), 'queries_unsat': tot('unsat'), 'queries_sat': tot('sat'),
            'solver_s': round(tot('solver_s'), 2), 'paths': tot('paths'), 'instructions': tot('steps'),
            'assertions_checked': tot('asserts'), 'assertions_discharged': discharged, 'entries': ents, 'notes': notes, 'status': status,
            'undecided': [n for n in notes if n.startswith('UNDECIDED')],
        },
        'assumptions': spec.get('assumptions', []),
        'violations': len(violations),
        'wall_s': round(wall, 2),
    }
    if os.environ.get('SX_NOEV'):
        return
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    main()
