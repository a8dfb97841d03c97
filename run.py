#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]  |  run.py setup  |  run.py replay FILE

Decides one property: builds the harnesses together with /repo's current source to LLVM IR, executes
them symbolically (vsym, deciding with z3), replays every counterexample, writes the evidence."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
EV = os.environ.get('VERIF_EVIDENCE', os.path.join(V, 'evidence'))
B = os.environ.get('VERIF_BUILD', os.path.join(V, '.build'))
sys.path.insert(0, V)
from checks import CHECKS

VSYM = os.path.join(B, 'vsym', 'release', 'vsym')
LL = os.path.join(B, 'guest', 'release', 'deps', 'guest.ll')


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def files(*roots):
    for r in roots:
        if os.path.isfile(r):
            yield r
            continue
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                yield os.path.join(d, f)


def digest(*roots):
    h = hashlib.sha256()
    for f in files(*roots):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as x:
            h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()


def build_vsym():
    e = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(B, 'vsym'))
    r = sh(['cargo', 'build', '--release', '--offline', '-q'], cwd=os.path.join(V, 'vsym'), env=e)
    if r.returncode or not os.path.exists(VSYM):
        print(r.stdout[-4000:])
        sys.exit(2)


def build_guest():
    """The harnesses, /repo, its dependencies and std as one LLVM IR file."""
    t = os.path.join(B, 'guest')
    stamp = os.path.join(t, 'stamp')
    # sources, not file times: the IR always stems from the tree as it is now
    d = digest(os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'), os.path.join(V, 'guest'))
    if os.path.exists(LL) and os.path.exists(stamp) and open(stamp).read() == d:
        return
    e = dict(os.environ, VTARGET=t, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')
    if os.path.isdir(t):
        sh(['cargo', 'clean', '--offline', '--release', '-q', '-p', 'async-io', '-p', 'guest'],
           cwd=os.path.join(V, 'guest'), env=dict(e, CARGO_TARGET_DIR=t))
    if os.path.exists(LL):
        os.unlink(LL)
    g = os.path.join(V, 'guest')
    if REPO != '/repo':
        # (experiments on a copy of /repo)
        g = os.path.join(B, 'guest-src')
        shutil.rmtree(g, ignore_errors=True)
        shutil.copytree(os.path.join(V, 'guest'), g)
        c = open(os.path.join(g, 'Cargo.toml')).read()
        open(os.path.join(g, 'Cargo.toml'), 'w').write(c.replace('"/repo"', '"%s"' % REPO))
    r = sh(['bash', os.path.join(g, 'build.sh'), '-q'], env=e)
    if r.returncode or not os.path.exists(LL):
        print(r.stdout[-6000:])
        sys.exit(2)
    open(stamp, 'w').write(d)


def locked():
    os.makedirs(B, exist_ok=True)
    f = open(os.path.join(B, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def setup():
    f = locked()
    build_vsym()
    build_guest()
    f.close()


def key_params(p):
    return ','.join('%s=%s' % kv for kv in sorted(p.items()))


def vsym(harness, params, out, budget, jobs=None, extra=()):
    cmd = [VSYM, '--ll', LL, '--harness', harness, '--out', out, '--time', str(int(budget)), '--jobs', str(jobs or os.cpu_count() or 4)]
    for k, v in sorted(params.items()):
        cmd += ['--param', '%s=%d' % (k, v)]
    r = sh(cmd + list(extra))
    try:
        with open(out) as f:
            d = json.load(f)
    except Exception:
        d = None
    return r, d


def confirm(pid, n, run, v):
    """Replays a counterexample; returns (path of the replay file, reproduced, how)."""
    os.makedirs(os.path.join(EV, 'replay'), exist_ok=True)
    base = os.path.join(EV, 'replay', '%s-%d' % (pid, n))
    tape = ','.join(str(x[2]) for x in v['tape'])
    sched = ','.join(str(x) for x in v['sched'])
    rec = dict(property=pid, harness=run['h'], params=run['p'], kind=v['kind'], message=v['msg'], tape=v['tape'],
               schedule=v['sched'], sites=v.get('sites', []), stack=v['stack'], threads=v['threads'], log=v['log'])
    how = []
    # the same IR with the values of the counterexample, no symbols left
    with open(base + '.tape', 'w') as f:
        f.write(tape + ';' + sched + ';' + ','.join(str(x) for x in v.get('sites', [])))
    r, d = vsym(run['h'], run['p'], base + '.out', 60, 1, ['--replay', base + '.tape'])
    again = [x for p in (d or {'parts': []})['parts'] for x in p['violations']]
    ok = any(x['kind'] == v['kind'] and x['msg'] == v['msg'] for x in again)
    how.append('interpreted: ' + ('reproduced' if ok else 'NOT reproduced: %s' % [(x['kind'], x['msg']) for x in again]))
    if run.get('native', True) and ok:
        nat = os.path.join(B, 'native')
        r = sh(['bash', os.path.join(V, 'tools', 'native.sh'), LL, nat])
        if r.returncode:
            how.append('native: build failed ' + r.stdout[-300:])
            ok = False
        else:
            cmd = [os.path.join(nat, 'native'), run['h'], base + '.tape'] + ['%s=%d' % x for x in sorted(run['p'].items())]
            if v['kind'] in ('memory',):
                cmd = ['valgrind', '-q', '--error-exitcode=10'] + cmd
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
                code, text = r.returncode, r.stdout.strip()[-300:]
            except subprocess.TimeoutExpired:
                code, text = 'timeout', ''
            if code == 5:
                how.append('native: not applicable, the schedule needs the interpreter')
            else:
                # (a hang is reported by the alarm or the time limit)
                same = v['kind'] != 'assert' or (isinstance(code, int) and v['msg'] in text)
                good = code not in (0, 2, 4) and same
                how.append('native: %s (exit %s) %s' % ('reproduced' if good else 'NOT reproduced', code, text))
                ok = ok and good
    rec['replay'] = how
    rec['replay_cmd'] = 'python3 run.py replay ' + base + '.json'
    with open(base + '.json', 'w') as f:
        json.dump(rec, f, indent=1)
    for x in ('.tape', '.out'):
        if os.path.exists(base + x):
            os.unlink(base + x)
    return base + '.json', ok, how


def known():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def check(pid, tier):
    t0 = time.time()
    f = locked()
    build_vsym()
    build_guest()
    build_s = time.time() - t0
    cfg = CHECKS[pid]
    runs = [r for r in cfg['runs'] if tier == 'thorough' or not r.get('deep')]
    limit = t0 + (780 if tier == 'quick' else 6 * 3600)
    S = dict.fromkeys('paths infeasible forks steps asserts asserts_solver sym_branches rewritten_branches witnessed_branches sched_points queries sat unsat cache_hits unknown second'.split(), 0)
    solver_s, slowest, max_symbols = 0.0, 0.0, 0
    per, fns, lines, covers_all, samples, errors = [], set(), {}, {}, [], []
    found, seen, n = [], set(), 0
    replayed = 0
    for run in runs:
        run.setdefault('p', {})
        out = os.path.join(B, 'out-%s-%d.json' % (pid, os.getpid()))
        left = limit - time.time()
        r, d = vsym(run['h'], run['p'], out, max(10, left), extra=['--grace', '5' if tier == 'quick' else '60'])
        if os.path.exists(out):
            os.unlink(out)
        name = run['h'] + ('(' + key_params(run['p']) + ')' if run['p'] else '')
        if d is None or d['bad']:
            errors.append('%s: vsym failed: %s' % (name, r.stdout[-800:]))
            continue
        ps = d['parts']
        for k in S:
            S[k] += sum(p[k] for p in ps)
        solver_s += sum(p['solver_s'] for p in ps)
        slowest = max([slowest] + [p['slowest_query_s'] for p in ps])
        max_symbols = max([max_symbols] + [p['max_symbols'] for p in ps])
        covers = {}
        for p in ps:
            fns.update(p['functions'])
            for k, ls in p['lines'].items():
                lines.setdefault(k, set()).update(ls)
            for k, c in p['covers'].items():
                covers[k] = covers.get(k, 0) + c
        for k, c in covers.items():
            covers_all[k] = covers_all.get(k, 0) + c
        vs = [dict(v, sites=d.get('sites', [])) for p in ps for v in p['violations']]
        per.append(dict(run=name, complete=all(p['complete'] for p in ps), paths=sum(p['paths'] for p in ps),
                        schedule_choices=sum(p['sched_points'] for p in ps), queries=sum(p['queries'] for p in ps),
                        asserts=sum(p['asserts'] for p in ps), wall_s=round(max(p['wall'] for p in ps), 2), covers=covers,
                        violations=len(vs)))
        un = {u['what']: u['stack'][:8] for p in ps for u in p['unmodelled']}
        for v in vs:
            key = (run['h'], v['kind'], v['msg'])
            if key in seen or len(seen) >= 6:
                continue
            seen.add(key)
            n += 1
            path, ok, how = confirm(pid, n, run, v)
            replayed += ok
            if not ok:
                errors.append('%s: counterexample "%s" does not reproduce: %s' % (name, v['msg'], how))
                continue
            found.append((run, v, path, how))
        if un and not vs:
            errors.append('%s: outside the model: %s' % (name, un))
        if not vs:
            if not per[-1]['complete'] or d.get('shared_grew'):
                errors.append('%s: the exploration is incomplete (time limit, or %d questions the solver did not answer)' % (name, sum(p['unknown'] for p in ps)))
            for c in run.get('covers', ()):
                if c not in covers:
                    errors.append('%s: vacuous, never reached: %s' % (name, c))
        if found and tier == 'quick':
            break
    news, olds = [], []
    for run, v, path, how in found:
        k = [x for x in known() if x.get('status') == 'open' and x['property'] == pid and x['harness'] == run['h'] and x['message'] == v['msg']
             and all(run['p'].get(a) == b for a, b in x.get('params', {}).items())]
        (olds if k else news).append((run, v, path, how))
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking', wall_s=round(wall, 2),
              violations=len(news),
              assumptions=cfg.get('assumptions', []) + COMMON,
              coverage=dict(
                  states=S['paths'] + S['infeasible'], transitions=S['steps'], traces_validated_against_impl=replayed,
                  exhaustive=not errors and all(p['complete'] for p in per),
                  explanation='states = symbolic paths explored to their end (each stands for all values of its symbols), transitions = IR instructions executed symbolically; '
                              'the IR is the compiled implementation itself, so no separate traces need validation: traces_validated_against_impl counts the counterexamples of this run replayed natively or in the interpreter',
                  bounds=cfg['bounds'], runs=per, functions_encoded=len(fns), functions=sorted(x for x in fns if '/repo/' in x),
                  source_lines_executed={k: len(x) for k, x in sorted(lines.items())},
                  paths=S['paths'], infeasible=S['infeasible'], instructions=S['steps'], assertions_checked=S['asserts'],
                  assertions_with_symbols=S['asserts_solver'], symbolic_branches=S['sym_branches'],
                  branches_decided_by_rewriting=S['rewritten_branches'], schedule_choices=S['sched_points'], queries=S['queries'],
                  sat=S['sat'], unsat=S['unsat'], answered_from_cache=S['cache_hits'], answered_by_second_solver=S['second'], unanswered=S['unknown'], solver_s=round(solver_s, 2),
                  slowest_query_s=slowest, max_symbols=max_symbols, build_s=round(build_s, 1), covers=covers_all,
                  samples=[dict(run=r['h'], message=v['msg'], replay=os.path.relpath(p, V), how=h) for r, v, p, h in found] or
                          [dict(run=p['run'], paths=p['paths'], covers=p['covers']) for p in per[:3]],
                  errors=errors))
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, pid + '.json'), 'w') as g:
        json.dump(ev, g, indent=1)
    f.close()
    for run, v, path, how in olds:
        print('KNOWN-FINDING: property=%s %s' % (pid, v['msg']))
    for run, v, path, how in news:
        print('%s %s: %s' % (run['h'], key_params(run['p']), v['msg']))
        for s in v['stack'][:12]:
            print('    at ' + s)
        print('    values: ' + ', '.join('%s=%s' % (a, c) for a, b, c in v['tape']))
        for h in how:
            print('    ' + h)
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for p in per:
        print('%-60s %s paths=%d queries=%d %.1fs' % (p['run'], 'complete' if p['complete'] else 'INCOMPLETE', p['paths'], p['queries'], p['wall_s']))
    if news:
        return 1
    for e in errors:
        print('ERROR ' + e)
    if errors:
        return 2
    print('%s held on everything explored: %d paths, %d queries, %.1fs' % (pid, S['paths'], S['queries'], wall))
    return 0


COMMON = [
    'operating system replaced at the libc boundary by the model in guest/src/kernel.rs (epoll, timerfd, eventfd, futex, clock, sockets), which runs atomically',
    'sequentially consistent memory; threads are switched only at atomic accesses to shared locations and at modelled system calls',
    'memory allocation does not fail; Linux with the epoll backend of polling; x86-64, rustc release profile',
    'trusted: rustc/LLVM front end up to the IR, vsym, z3',
]


def main():
    a = sys.argv[1:]
    if a[:1] == ['setup']:
        return setup()
    if a[:1] == ['replay']:
        rec = json.load(open(a[1]))
        f = locked()
        build_vsym()
        build_guest()
        run = dict(h=rec['harness'], p=rec['params'])
        v = dict(kind=rec['kind'], msg=rec['message'], tape=rec['tape'], sched=rec['schedule'], sites=rec.get('sites', []), stack=rec['stack'], threads=rec['threads'], log=rec['log'])
        path, ok, how = confirm(rec['property'], 999, run, v)
        print('\n'.join(how))
        return 1 if ok else 0
    if a[:1] == ['list']:
        print(' '.join(CHECKS))
        return 0
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(a[0], tier)


if __name__ == '__main__':
    sys.exit(main())
