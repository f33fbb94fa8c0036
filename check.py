#!/usr/bin/env python3
"""Decides one property: python3 check.py Cxx

1. builds gvc (the deductive verifier, /verif/gvc) if needed,
2. generates every proof obligation of the property from /repo's working tree
   and the contracts in /verif/contracts, and discharges them,
3. if one fails: searches for a failing run of the real code (/verif/replay),
4. writes /verif/evidence/<id>.json.
"""
import json, os, subprocess, sys, time, hashlib, glob, re, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off',
           GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod')
ENV['PATH'] = '/opt/veriftools/go1.27.3/bin:' + os.environ.get('PATH', '/usr/local/bin:/usr/bin:/bin')
ENV.setdefault('GOCACHE', '/root/.cache/go-build')

RUNNER, ENGINE, CATACOMB, STOCK, CONTEXT = 'TestRunner', 'TestEngine', 'TestCatacomb', 'TestStock', 'TestContext'
# replay tests per property: (regular expression, race detector)
REPLAY = {
    'C01': (RUNNER, False), 'C02': (RUNNER, False), 'C03': (RUNNER, False), 'C04': (RUNNER, False),
    'C05': (RUNNER, False), 'C06': (RUNNER, False), 'C07': (RUNNER, True),
    'C08': (ENGINE, False), 'C09': (ENGINE, False), 'C10': (ENGINE, False), 'C11': (ENGINE + '|TestValidate', False),
    'C12': (ENGINE, False), 'C13': (ENGINE, False), 'C14': (ENGINE, False), 'C15': (ENGINE, False),
    'C16': (ENGINE + '|' + RUNNER, False),
    'C17': (CATACOMB, False), 'C18': (CATACOMB, False), 'C19': (CATACOMB, False), 'C20': (CATACOMB, True),
    'C21': (STOCK, False), 'C22': (ENGINE, True), 'C23': (CONTEXT, False), 'C24': ('TestInstall|TestEngineSelf', False),
}


def build():
    """Builds gvc into /verif/bin unless an up to date one is there."""
    h = hashlib.sha256()
    for f in sorted(glob.glob(HERE + '/gvc/*.go') + glob.glob(HERE + '/gvc/go.*')):
        h.update(open(f, 'rb').read())
    tag = h.hexdigest()[:16]
    exe = f'{HERE}/bin/gvc-{tag}'
    if not os.path.exists(exe):
        os.makedirs(HERE + '/bin', exist_ok=True)
        for old in glob.glob(HERE + '/bin/gvc-*'):
            os.remove(old)
        subprocess.run(['go', 'build', '-o', exe + f'.{os.getpid()}', '.'], cwd=HERE + '/gvc', env=ENV, check=True)
        os.rename(exe + f'.{os.getpid()}', exe)
    return exe


def replay(prop, seeds, limit):
    """Runs the real code; returns the output of a failing run, or None."""
    pat, race = REPLAY[prop]
    cmd = ['go', 'test', '-count=1', '-vet=off', '-failfast', f'-timeout={limit}s', '-run', pat]
    if race:
        cmd.append('-race')
    env = dict(ENV, REPLAY_SEEDS=str(seeds))
    try:
        r = subprocess.run(cmd + ['.'], cwd=HERE + '/replay', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=limit + 120, text=True)
    except subprocess.TimeoutExpired as e:
        return None, 'replay ran out of time', cmd
    if r.returncode == 0:
        return None, r.stdout, cmd
    if '--- FAIL' in r.stdout or 'WARNING: DATA RACE' in r.stdout or 'fatal error: all goroutines are asleep' in r.stdout \
            or re.search(r'^panic: ', r.stdout, re.M):
        return r.stdout, r.stdout, cmd
    return None, r.stdout, cmd  # e.g. it does not build


PACKAGES = {'worker': [1, 2, 3, 4, 5, 6, 7, 16, 21, 23], 'dependency': [8, 9, 10, 11, 12, 13, 14, 15, 16, 22, 23, 24],
            'catacomb': [17, 18, 19, 20, 23], 'workertest': [21]}


def assumed(prop, rep):
    n = int(prop[1:])
    out = []
    for a in (rep['Assume'] or []) if rep else []:
        pkg, text = a.split(': ', 1)
        if n in PACKAGES.get(pkg, [n]):
            out.append(text)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    exe = build()
    out = f'{HERE}/out/{prop}'
    os.makedirs(out, exist_ok=True)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    js = f'{out}/report.json'
    if os.path.exists(js):
        os.remove(js)
    limit = 20 if tier == 'quick' else 60
    cmd = [exe, '-repo', REPO, '-contracts', HERE + '/contracts', '-property', prop, '-limit', str(limit), '-out', js]
    if tier == 'thorough':
        cmd.append('-cross')
    p = subprocess.run(cmd, cwd=HERE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    problems = []
    rep = None
    if os.path.exists(js):
        rep = json.load(open(js))
        for o in rep['Failed'] or []:
            s = f"{o['Fn']}: {o['Kind']}: {o['Label']} at {o['Pos']}"
            if s not in problems:
                problems.append(s)
        for s in rep['Undecided'] or []:
            problems.append('undecided: ' + s)
    else:
        problems.append('the verifier could not read the code: ' + p.stdout[-2000:])
    if p.returncode not in (0, 1) and not problems:
        problems.append(f'the verifier ended with status {p.returncode}: ' + p.stdout[-2000:])

    res = rep['Results'] if rep else []
    obls = [o for r in res or [] for o in (r['Obls'] or [])]
    back = {}
    for o in obls:
        if o['OK']:
            back[o['Backend']] = back.get(o['Backend'], 0) + 1
    used = sorted({u for r in res or [] for u in (r['Used'] or [])})
    trusted = [u for u in used if not u.startswith('func:')]
    cov = {
        'obligations': len(obls),
        'discharged': sum(1 for o in obls if o['OK']),
        'checker_cmd': ' '.join(cmd),
        'trusted_base': [
            'gvc (/verif/gvc): symbolic execution of go/ssa of /repo into SMT obligations, its memory and concurrency model',
            'go/ssa and go/types (golang.org/x/tools v0.52.0)', 'z3 5.3.2; cvc5 1.1.2 and z3 4.8.12 for what it leaves open',
        ] + ['assumed contract ' + u for u in trusted],
        'discharged_by': back,
        'functions_under_contract': [
            {'function': r['Fn'], 'source': r['File'], 'obligations': len(r['Obls'] or []), 'paths': r['Paths'],
             'inlined': r['Inlined'], 'loop_invariants_inferred': r['Invariants'], 'ms': r['Millis']} for r in res or []],
        'contracts_of_repository_functions_used': [u for u in used if u.startswith('func:')],
        'solver_seconds': round(rep['SolverNS'] / 1e9, 2) if rep else 0,
        'solver_queries': rep['Queries'] if rep else 0,
        'failed_obligations': problems,
        'helper_contracts_replaced_by_inlining': rep['Dropped'] if rep else [],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': assumed(prop, rep), 'wall_s': 0, 'violations': 1 if problems else 0}

    rc = 0
    if problems:
        rc = 1
        path = f'{out}/replay.txt'
        with open(path, 'w') as f:
            f.write(f'property {prop}: obligations that are not discharged\n\n')
            for s in problems:
                f.write(s + '\n')
                for t in (rep['Traces'] if rep else {}).get(s, []) or []:
                    f.write('      ' + t + '\n')
            f.write('\nverifier: ' + ' '.join(cmd) + '\n' + p.stdout[-4000:] + '\n')
        left = 840 - (time.time() - t0)
        bad, txt, rcmd = replay(prop, 150 if tier == 'quick' else 1000, max(60, int(min(300, left - 130))))
        with open(path, 'a') as f:
            f.write('\nreplay against the real code: (cd /verif/replay && ' + ' '.join(rcmd) + ' .)\n')
            f.write(bad or txt)
        ev['coverage']['replay'] = 'failing run found' if bad else 'no failing run found'
        for s in problems[:20]:
            print('not discharged:', s[:600])
        print(f'VIOLATION property={prop} replay={path}' + ('' if bad else ' no-failing-input-found'))
    else:
        print(f'{prop}: {len(obls)} obligations discharged, {len(res)} functions under contract')
        if tier == 'thorough':
            # a failing run here would mean that a contract or an assumption is wrong
            bad, txt, rcmd = replay(prop, 1000, max(60, int(min(500, 840 - (time.time() - t0) - 130))))
            ev['coverage']['replay'] = 'a run of the real code fails' if bad else 'no run of the real code fails'
            if bad:
                rc = 1
                ev['violations'] = 1
                path = f'{out}/replay.txt'
                with open(path, 'w') as f:
                    f.write(f'property {prop}: every obligation is discharged, but a run of the real code fails\n(cd /verif/replay && ' + ' '.join(rcmd) + ' .)\n' + bad)
                print(f'VIOLATION property={prop} replay={path}')
    ev['wall_s'] = round(time.time() - t0, 2)
    tmp = f'{HERE}/evidence/{prop}.json.tmp'
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, f'{HERE}/evidence/{prop}.json')
    sys.exit(rc)


if __name__ == '__main__':
    if sys.argv[1] == '--build':
        print(build())
    else:
        main()
