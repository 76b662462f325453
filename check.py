#!/usr/bin/env python3
"""Runs the simulation of one property (or a replay file) against /repo's working tree.

  check.py Cnn [quick|thorough]     0 held, 1 VIOLATION, 2 the check itself failed
  check.py replay FILE              repeats one recorded violation
  check.py setup                    builds everything
"""
import hashlib, json, os, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
T = os.environ.get('SIM_TARGET', V + '/target')
REPO = '/repo'
VARIANTS = {
    'dbg': 'debug assertions and overflow checks on, little-endian length headers',
    'chk': 'as dbg, with the newest stable compiler and its run-time checks of unsafe code',
    'rel': 'optimised as released, little-endian length headers',
    'be': 'optimised as released, big-endian length headers (feature big-endian-varlen)',
}
# Workers per variant.
WORKERS = {'dbg': 2, 'chk': 1, 'rel': 3, 'be': 2}
# Cases per worker in the quick tier: about 40 s of work on this sandbox each.
QUICK = {
    'C01': 1600, 'C02': 1500, 'C03': 5000, 'C04': 900, 'C05': 3200, 'C06': 3000, 'C07': 4000,
    'C08': 5000, 'C09': 3200, 'C10': 4500, 'C11': 5000, 'C12': 3500, 'C13': 2000, 'C14': 3000,
}
QUICK_CAP, THOROUGH_S = 150, 600


def clean(s):
    """Only printable ASCII reaches the check's output."""
    return ''.join(c if ' ' <= c <= '~' or c == '\n' else '?' for c in s)


def fail(msg):
    print('check failed:', clean(msg))
    sys.exit(2)


def src_hash():
    h = hashlib.sha256()
    roots = [REPO, V + '/sim']
    files = [V + '/rustc-wrap.sh', V + '/build.sh']
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith(('.rs', '.toml', '.lock', '.md'))]
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        try:
            with open(f, 'rb') as fh:
                h.update(fh.read())
        except OSError:
            pass
    return h.hexdigest()


def binary(v):
    return f'{T}/{v}/{"debug" if v in ("dbg", "chk") else "release"}/simcheck'


def build(variants):
    """Builds from the current sources, whatever their time stamps say."""
    h = src_hash()
    todo = []
    for v in variants:
        stamp = f'{T}/{v}/sources.sha256'
        try:
            with open(stamp) as f:
                same = f.read() == h and os.access(binary(v), os.X_OK)
        except OSError:
            same = False
        if not same:
            todo.append(v)
            for kind in ('debug', 'release'):
                fp = f'{T}/{v}/{kind}/.fingerprint'
                if os.path.isdir(fp):
                    for x in os.listdir(fp):
                        if x.startswith(('pgnumeric-', 'simcheck-', 'simrt-', 'decmodel-')):
                            shutil.rmtree(os.path.join(fp, x))
    if not todo:
        return
    p = subprocess.run([V + '/build.sh'] + todo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        out = p.stdout.decode(errors='replace')
        print(clean('\n'.join(l[:300] for l in out.splitlines()[-60:])))
        fail('the simulator does not build against ' + REPO)
    for v in todo:
        with open(f'{T}/{v}/sources.sha256', 'w') as f:
            f.write(h)


def locale_dir():
    """A private locale with a decimal comma, for C12 and the environment faults."""
    d = V + '/work/loc'
    if not os.path.isdir(d + '/sim_COMMA'):
        os.makedirs(d, exist_ok=True)
        tmp = f'{d}/tmp.{os.getpid()}'
        # localedef exits 1 when it only has warnings
        subprocess.run(['localedef', '-c', '-i', 'de_DE', '-f', 'ISO-8859-1', tmp],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if not os.path.isdir(tmp):
            fail('localedef could not build the comma locale')
        try:
            os.rename(tmp, d + '/sim_COMMA')
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


def environment():
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'TMPDIR', 'USER')}
    e['LOCPATH'] = locale_dir()
    return e


def known_lines(prop):
    try:
        with open(V + '/known-findings.txt') as f:
            return [l.rstrip('\n') for l in f if l.startswith(f'known: property={prop} ')]
    except OSError:
        return []


def replay(path):
    with open(path) as f:
        r = json.load(f)
    build([r['variant']])
    p = subprocess.run([binary(r['variant']), 'replay', path], env=environment(), stdout=subprocess.PIPE)
    return p.returncode, p.stdout.decode(errors='replace')


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    variants = list(VARIANTS)
    build(variants)
    env = environment()
    t_build = time.time() - t0
    wk = f'{V}/work/{prop}.{os.getpid()}'
    os.makedirs(wk)
    os.makedirs(V + '/replays', exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    cap = QUICK_CAP if tier == 'quick' else THOROUGH_S
    count = QUICK[prop] if tier == 'quick' else 10 ** 12
    scale = float(os.environ.get('SIM_SCALE', '1'))
    procs = []
    try:
        nw = sum(WORKERS.values())
        g = -1
        for v, n in WORKERS.items():
            for w in range(n):
                g += 1  # the variants run different cases
                out = f'{wk}/{v}-{w}.json'
                cmd = [binary(v), 'worker', '--prop', prop, '--variant', v, '--seed', str(seed),
                       '--count', str(max(1, int(count * scale))), '--from', str(g), '--step', str(nw),
                       '--out', out, '--replay-dir', V + '/replays', '--deadline-ms', str(int(cap * 1000)),
                       '--known', V + '/known-findings.txt']
                if tier == 'thorough':
                    cmd += ['--sims', '4']
                with open(f'{wk}/{v}-{w}.log', 'wb') as lf:
                    procs.append((v, w, out, subprocess.Popen(cmd, env=env, stdout=lf, stderr=lf, start_new_session=True)))
        stop = None
        while any(p.poll() is None for _, _, _, p in procs):
            if stop is None and any(p.poll() == 1 for _, _, _, p in procs):
                stop = time.time() + 1
            if stop is not None and time.time() > stop:
                for _, _, _, p in procs:
                    if p.poll() is None:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                break
            if time.time() - t0 > t_build + cap + 250:
                for _, _, _, p in procs:
                    if p.poll() is None:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                fail('workers did not stop')
            time.sleep(0.05)
        outs, bad = [], []
        for v, w, out, p in procs:
            if p.returncode in (0, 1, 2) and os.path.exists(out):
                with open(out) as f:
                    outs.append(json.load(f))
            elif stop is None:
                with open(f'{wk}/{v}-{w}.log', errors='replace') as f:
                    bad.append(f'worker {v}-{w} ended with {p.returncode}: {f.read()[-500:]}')
    finally:
        for _, _, _, p in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        shutil.rmtree(wk, ignore_errors=True)
    wall = time.time() - t0
    viols = [o for o in outs if o['violation']]
    harness = [o['harness'] for o in outs if o['harness']]
    write_evidence(prop, tier, seed, outs, viols, wall, t_build)
    known = {}
    for o in outs:
        for k, n in o['known'].items():
            known[k] = known.get(k, 0) + n
    for l in known_lines(prop):
        print(f'KNOWN-FINDING: property={prop} {l.split(" class=", 1)[1]}')
    for o in viols:
        rc, txt = replay(o['violation'])
        if rc in (1, 3):
            print(clean(o['violation_text'][:600]))
            print(f'replayed in a new process: {"identical" if rc == 1 else "differs: " + clean(txt[:300])}')
            print(f'VIOLATION property={prop} replay={o["violation"]}')
            return 1
        bad.append(f'{o["violation"]} did not come again in a new process')
    if bad or harness:
        fail('; '.join(bad + harness)[:2000])
    runs = sum(o['runs'] for o in outs)
    skipped, unrep = sum(o['skipped'] for o in outs), sum(len(o['unreproduced']) for o in outs)
    cases = sum(o['cases'] for o in outs)
    if cases == 0 or skipped * 5 > cases:
        fail(f'{skipped} of {cases} cases could not be run')
    for o in outs:
        for u in o['unreproduced']:
            print('not reproduced, not reported:', clean(u[:300]))
    print(f'{prop} {tier}: held in {cases} cases, {runs} simulated runs, {sum(o["total_steps"] for o in outs)} steps, '
          f'{len(set().union(*[o["sigs"] for o in outs]))} distinct interleavings, {wall:.0f} s')
    return 0


FAULTS = ['preempt_in_call', 'preempt_at_op', 'preempt_hot_access', 'fairness_switch', 'spurious_wake', 'stall', 'alloc_reused',
          'alloc_failure', 'sink_error', 'sink_panic', 'hasher_panic', 'ser_error', 'ser_panic', 'read_error', 'read_eof',
          'read_interrupted', 'read_short', 'write_error', 'write_short', 'write_interrupted', 'callback_yield',
          'callback_reenter', 'callback_panic', 'crash_restart', 'torn_record', 'lost_record', 'corruption', 'locale_flip',
          'env_change', 'op_panic', 'op_error', 'stack_dirtied', 'overflow_failures', 'div_zero_failures', 'cold_start']


def write_evidence(prop, tier, seed, outs, viols, wall, t_build):
    def total(k):
        return sum(o[k] for o in outs)

    def merged(k):
        r = {}
        for o in outs:
            for x, n in o[k].items():
                r[x] = r.get(x, 0) + n
        return dict(sorted(r.items()))
    ctr = merged('counters')
    sim_wall = max([o['wall'] for o in outs], default=0.0)
    runs = total('runs')
    samples = [{'variant': o['variant'], 'case': o['sample']} for o in outs if o['sample']]
    seen, picked = set(), []
    for s in samples:
        if s['variant'] not in seen:
            seen.add(s['variant'])
            picked.append(s)
    sig = set().union(*[o['sigs'] for o in outs]) if outs else set()
    edges = {}
    for v in VARIANTS:
        os_ = [o for o in outs if o['variant'] == v]
        if os_:
            edges[v] = {'reached': len(set().union(*[set(o['edges']) for o in os_])), 'instrumented': max(o['nguards'] for o in os_)}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': total('nontrivial'),
            'rule': 'A case is a set of thread programs with values, callbacks, memory personality and faults drawn from one seed '
                    '(seed, index). Each case runs once quietly and then under generated schedules and faults. Cases have '
                    'distinct seeds; one counts as non-trivial if its faulty runs observed at least one value of the library after '
                    'an operation (and was not skipped).',
            'samples': picked[:3],
            'cases': total('cases'),
            'cases_per_variant': {v: sum(o['cases'] for o in outs if o['variant'] == v) for v in VARIANTS},
            'variants': VARIANTS,
            'skipped_cases': total('skipped'),
            'unreproduced': sum((o['unreproduced'] for o in outs), []),
            'runs_per_hour': round(runs / max(sim_wall, 0.001) * 3600),
            'seeds_per_hour': round(total('cases') / max(sim_wall, 0.001) * 3600),
            'simulated_steps': total('total_steps'),
            'longest_quiet_run_steps': max(o['max_base_steps'] for o in outs),
            'simulated_seconds': round(total('sim_ns') / 1e9, 3),
            'context_switches': total('switches'),
            'distinct_interleavings': len(sig),
            'distinct_interleavings_measure': 'hash of the sequence of (thread, basic block, next thread) at every switch, runs with at least one switch',
            'schedulers': merged('sched_kinds'),
            'environment_faults_armed_in_runs': merged('faults_env'),
            'faults_injected': {k: n for k, n in ctr.items() if k in FAULTS},
            'work_done': {k: n for k, n in ctr.items() if k not in FAULTS},
            'instrumented_edges': edges,
            'real_components': 'the whole of pgnumeric as compiled from /repo, with its smallvec, lazy_static and strtod dependencies; '
                               'std; serde, serde_json, bincode, serde_cbor; glibc locale and number formatting',
            'stub_components': 'thread scheduling, futex waits, clock, random numbers, heap (placement, contents, failure), '
                               'disk with crash and torn tail, text sinks, hashers, transports, in-memory serde format',
            'build_s': round(t_build, 1),
            'worker_wall_s': {f"{o['variant']}/{i}": round(o['wall'], 1) for i, o in enumerate(outs)},
            'digests': {f"{o['variant']}/{i}": f"{o['digest']:x}" for i, o in enumerate(outs)},
        },
        'assumptions': [
            'threads interleave at basic-block and shared-access granularity under sequential consistency',
            'the decimal reference model and the byte decoder in sim/model are right (written from the documentation, independent of the library)',
            'what was explored is a sample: absence of a violation is not a proof',
        ],
        'wall_s': round(wall, 2),
        'violations': len(viols),
    }
    tmp = f'{V}/evidence/.{prop}.{os.getpid()}'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, f'{V}/evidence/{prop}.json')


def main():
    a = sys.argv[1:]
    if a and a[0] == 'setup':
        build(list(VARIANTS))
        locale_dir()
        print('built')
        return 0
    if len(a) == 2 and a[0] == 'replay':
        rc, txt = replay(a[1])
        print(clean(txt), end='')
        return rc
    if a and a[0] in QUICK:
        return check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
