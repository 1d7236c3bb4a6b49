#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's working tree: compiles protosocket's crates together with the harnesses
to LLVM IR, executes the property's harnesses symbolically (symx, z3), replays what the solver finds
against the natively compiled code. See DESIGN.md.

exit 0: held on everything explored. exit 1 + VIOLATION line: broken. exit 2: no verdict.
"""
import fcntl, json, os, random, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
T = os.path.join(V, 'target')
SYMX = os.path.join(V, 'symx/target/release/symx')
VARIANTS = {  # how the harness is built: the receive buffer grows by 4 bytes at a time, or as released
    'small': (os.path.join(T, 'vph.ll'), os.path.join(T, 'native/debug/replay')),
    'prod': (os.path.join(T, 'vph-prod.ll'), os.path.join(T, 'native-prod/debug/replay')),
}
TECHNIQUE = 'bounded symbolic execution of the compiled code (LLVM IR) with z3, native replay of models'

from harnesses import PROPS, ENTRIES, ASSUMPTIONS  # noqa: E402


def die(msg):
    print('INCONCLUSIVE: ' + msg)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def split(entry):
    name, _, variant = entry.partition('@')
    return name, variant or 'small'


def build(variants):
    os.makedirs(T, exist_ok=True)
    with open(os.path.join(T, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable')
        env.pop('RUSTFLAGS', None)
        a = subprocess.Popen(['cargo', 'build', '-q', '--release', '--offline'], cwd=os.path.join(V, 'symx'), env=env,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bs = [subprocess.Popen(['bash', os.path.join(V, 'vp/build.sh'), v], env=dict(env, VP_TARGET=T), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True) for v in sorted(variants)]
        bout = [b.communicate()[0] for b in bs]
        out, _ = a.communicate()
        if a.returncode:
            die('the engine does not build:\n' + out[-3000:])
        for b, o in zip(bs, bout):
            if b.returncode:
                die('the harness does not build against /repo:\n' + o[-6000:])


def replay(entry, tape, prop, timeout=60, wrap=()):
    env = dict(os.environ, VP_TAPE=','.join(map(str, tape)), VP_PROP=str(prop))
    try:
        name, variant = split(entry)
        r = subprocess.run([*wrap, VARIANTS[variant][1], name], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, errors='replace', text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')


def reproduced(f, entry, prop):
    """Does the model of a finding fail natively, in the same way? Returns what was observed, or None."""
    rc, out = replay(entry, f['tape'], prop, timeout=30 if f['kind'] == 'steps' else 120)
    if rc == 'timeout':
        return 'does not terminate (stopped after 30 s)' if f['kind'] == 'steps' else None
    if rc == 101:
        m = re.search(r'^VP-(CHECK-FAILED|PANIC) .*', out, re.M)
        return m.group(0) if m else 'failed'
    if rc < 0 or rc in (132, 134, 135, 136, 139):
        return 'killed by signal: ' + out[-300:].strip()
    if f['kind'] == 'bug':
        # memory errors that happen to be harmless in this build
        rc, out = replay(entry, f['tape'], prop, timeout=200, wrap=('valgrind', '-q', '--error-exitcode=77'))
        if rc == 77:
            return 'memory error: ' + ' '.join(out.split()[:40])
    return None


def cross_check(dumps):
    """The same queries, other solvers."""
    n = bad = 0
    for d in sorted(dumps, key=lambda d: -len(d['smt2']))[:6]:
        for solver in (['cvc5', '--lang=smt2', '--tlimit=20000'], ['z3-new', '-in', '-T:20']):
            try:
                r = subprocess.run(solver, input='(set-logic QF_BV)\n' + d['smt2'] + '\n(check-sat)\n', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   timeout=40)
            except (subprocess.TimeoutExpired, FileNotFoundError):
                continue
            if '(error' in r.stdout:
                continue
            a = re.search(r'^(sat|unsat)$', r.stdout, re.M)
            if not a:
                continue
            n += 1
            if (a.group(1) == 'sat') != bool(d['sat']):
                bad += 1
    return n, bad


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        print(__doc__)
        sys.exit(2)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    prop = ','.join(map(str, [int(pid[1:])] + P.get('also', [])))
    t0 = time.time()
    entries = list(P['quick']) + (list(P['thorough']) if tier == 'thorough' else [])
    build({split(e)[1] for e in entries} | {'small'})
    t_build = time.time() - t0
    threads = os.cpu_count() or 8
    limit = 600 if tier == 'quick' else 3600
    nsamples = 12 if tier == 'quick' else 48
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking'}
    out_dir = os.path.join(V, 'evidence')
    os.makedirs(out_dir, exist_ok=True)
    per = []
    functions = set()
    samples = []
    validated = 0
    crossed = 0
    violations = []
    problems = []
    rng = random.Random(seed)
    for e in entries:
        res = os.path.join(out_dir, f'.{pid}.{e}.json')
        left = limit - (time.time() - t0)
        if tier == 'quick' and left < 20:
            problems.append(f'{e}: out of time')
            continue
        name, variant = split(e)
        cmd = [SYMX, '--ll', VARIANTS[variant][0], '--entry', name, '--prop', str(prop), '--threads', str(threads), '--timeout',
               str(int(left if tier == 'quick' else ENTRIES[e].get('limit', 1800))), '--out', res,
               '--samples', str(nsamples), '--seed', str(seed), '--dump', '3', '--query-ms', '60000',
               # a path that takes longer counts as one that does not end
               '--steps', str(30_000_000 if 'bulk' not in e else 300_000_000 if tier == 'quick' else 3_000_000_000)]
        try:
            os.remove(res)
        except FileNotFoundError:
            pass
        try:
            r = sh(cmd, timeout=int(cmd[cmd.index('--timeout') + 1]) + 60)
        except subprocess.TimeoutExpired:
            problems.append(f'{e}: the engine did not stop')
            continue
        try:
            j = json.load(open(res))
        except Exception:
            problems.append(f'{e}: engine failed: {r.stdout[-400:]}')
            continue
        os.remove(res)
        functions |= set(j['functions'])
        row = {k: j[k] for k in ('entry', 'complete', 'paths', 'infeasible', 'instructions', 'forks', 'checks',
                                 'symbolic_checks', 'queries', 'sat', 'unsat', 'cache_hits', 'solver_s', 'max_query_s',
                                 'max_path_instructions', 'max_symbols', 'max_decisions', 'wall_s')}
        row['entry'] = e
        row['bounds'] = ENTRIES[e]['bounds']
        row['witnesses'] = {k: v['paths'] for k, v in j['witness'].items()}
        per.append(row)
        # counterexamples
        n_rep = 0
        for f in j['found'][:8]:
            seen = reproduced(f, e, prop)
            if seen is None:
                continue
            n_rep += 1
            violations.append({'entry': e, 'kind': f['kind'], 'message': f['msg'], 'model': list(zip(f['names'], f['tape'])),
                               'tape': f['tape'], 'observed': seen})
            break
        if j['found'] and not n_rep:
            f = j['found'][0]
            problems.append(f"{e}: a counterexample does not reproduce natively: {f['kind']} {f['msg']} {f['tape']}")
        if not j['found']:
            if not j['complete']:
                problems.append(f"{e}: not exhausted: {j['incomplete']}")
            missing = [w for w in ENTRIES[e]['witness'] if w not in j['witness']]
            if missing and j['complete']:
                problems.append(f'{e}: vacuous, never reached: {missing}')
            if j['checks'] == 0:
                problems.append(f'{e}: no check reached')
        # the engine against the machine: sampled paths have to run natively as they ran symbolically
        ss = j['samples'][:nsamples]
        for s in ss:
            rc, out = replay(e, s['tape'], prop)
            m = re.search(r'^VP-OK trace=(\S*)', out, re.M)
            want = ','.join(map(str, s['trace']))
            if violations:
                break
            if rc != 0 or not m or m.group(1) != want:
                problems.append(f"{e}: a path runs differently natively: {s['tape']}: {rc} {out[-200:].strip()} expected {want}")
                break
            validated += 1
        for s in rng.sample(ss, min(2, len(ss))):
            samples.append({'harness': e, 'model': s['tape'], 'trace': s['trace']})
        n, bad = cross_check(j['dump'])
        crossed += n
        if bad:
            problems.append(f'{e}: solvers disagree')
        if violations:
            break
    ev['coverage'] = {
        'states': sum(r['paths'] for r in per),
        'transitions': sum(r['instructions'] for r in per),
        'traces_validated_against_impl': validated,
        'samples': samples[:20],
        'exhaustive': not problems and not violations,
        'rule': 'states: complete symbolic paths, each standing for all values of its symbolic variables; '
                'transitions: IR instructions executed symbolically; a path is non-trivial if it ends in a check',
        'queries_discharged': sum(r['queries'] for r in per),
        'queries_sat': sum(r['sat'] for r in per),
        'queries_unsat': sum(r['unsat'] for r in per),
        'queries_answered_from_cache': sum(r['cache_hits'] for r in per),
        'solver_s': round(sum(r['solver_s'] for r in per), 3),
        'property_checks': sum(r['checks'] for r in per),
        'property_checks_decided_by_solver': sum(r['symbolic_checks'] for r in per),
        'queries_cross_checked': crossed,
        'harnesses': per,
        'functions_encoded': sorted(f for f in functions if 'protosocket' in f),
        'functions_encoded_total': len(functions),
        'build_s': round(t_build, 1),
    }
    ev['assumptions'] = ASSUMPTIONS + P.get('assumptions', [])
    ev['wall_s'] = round(time.time() - t0, 2)
    ev['violations'] = len(violations)
    if problems:
        ev['coverage']['problems'] = problems
    if violations:
        d = os.path.join(out_dir, f'{pid}.replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, 'replay.sh')
        v = violations[0]
        json.dump(v, open(os.path.join(d, 'counterexample.json'), 'w'), indent=1)
        with open(path, 'w') as f:
            f.write(f"#!/bin/bash\n# {v['message']}\n# exit 101: the violation happens\n"
                    f"bash {V}/vp/build.sh {split(v['entry'])[1]} && VP_PROP={prop} VP_TAPE={','.join(map(str, v['tape']))} "
                    f"timeout 60 {VARIANTS[split(v['entry'])[1]][1]} {split(v['entry'])[0]}\n")
        os.chmod(path, 0o755)
        ev['coverage']['violation'] = v
    json.dump(ev, open(os.path.join(out_dir, f'{pid}.json'), 'w'), indent=1)
    for r in per:
        print(f"{r['entry']}: paths={r['paths']} checks={r['checks']} queries={r['queries']} (sat {r['sat']}, unsat {r['unsat']}) "
              f"solver={r['solver_s']}s wall={r['wall_s']}s complete={r['complete']}")
    if violations:
        v = violations[0]
        print(f"{v['entry']}: {v['message']}; natively: {v['observed']}")
        print('  ' + ', '.join(f'{a}={b}' for a, b in v['model']))
        print(f'VIOLATION property={pid} replay={path}')
        sys.exit(1)
    if problems:
        die('\n  '.join(problems))
    print(f'OK property={pid} tier={tier} paths={ev["coverage"]["states"]} validated={validated} cross-checked={crossed} wall={ev["wall_s"]}s')


if __name__ == '__main__':
    main()
