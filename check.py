#!/usr/bin/env python3
"""Decides one property by seeded search over simulated executions of Serpent, built from /repo's working tree.

  check.py PROPERTY            run the check (VERIF_SEED, VERIF_TIER from the environment)
  check.py --replay FILE       run one recorded execution and print what it violates

Exit 0: the property held in every execution. Exit 1: violated; "VIOLATION property=<id> replay=<path>". Anything else: error.
"""
import collections, json, os, subprocess, sys, threading, time, hashlib
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'sim'))
import build as simbuild  # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
WORKERS = int(os.environ.get('SIM_WORKERS', '8'))
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.txt')

# property -> (program, scenario profiles and their share, counters that say the property was exercised)
PROPS = {
    'C01': ('main', {'c01': 1}, ['C01.checked']),
    'C02': ('main', {'c02': 1}, ['C02.checked']),
    'C03': ('main', {'c03': 1}, ['C03.windows']),
    'C04': ('main', {'c04': 1}, ['C04.checked']),
    'C05': ('main', {'c05': 1}, ['C05.checked']),
    'C06': ('main', {'c06': 1}, ['C06.compared']),
    'C07': ('main', {'c07': 1}, ['C07.checked']),
    'C08': ('main', {'c08': 1}, ['C08.local_maps', 'C08.global_maps']),
    'C09': ('main', {'c09': 1}, ['C09.checked']),
    'C10': ('main', {'c10': 1}, ['C10.frames']),
    'C11': ('main', {'c11': 1}, ['C11.midrun']),
    'C12': ('race', {'c12': 0.75}, ['C12.accesses']),
    'C13': ('main', {'c13': 1}, ['C13.checked']),
    'C14': ('main', {'c14': 3}, ['C14.frames']),
    'C15': ('main', {'c15': 1}, ['C15.tf']),
    'C16': ('tools', {'c16': 20}, ['C16.outputs']),
    'C17': ('main', {'c17': 1}, ['C17.formatter']),
    'C18': ('main', {'c18': 1}, ['C18.compared']),
    'C21': ('metrics', {'c21': 4}, ['C21.judged']),
}
RUNS = {'quick': 400, 'thorough': 12000}
WALL = {'quick': 420.0, 'thorough': 3000.0}

COMPONENTS = {
    'main': {
        'real': ['serpent front end, back end (GTSAM iSAM2), registration, mapping, filters, stereo pipeline and the three node mains, eigen_ros, eigen_ext, '
                 'eigen_gtsam, pointcloud_tools: compiled unmodified from /repo', 'GTSAM, PCL, Eigen, OpenCV containers'],
        'stub': ['ROS (transport, queues, spinners, synchronisers, parameters, TF, services, clock)', 'mutexes, sleeps and threads (cooperative fibers chosen by the seeded scheduler)',
                 'registration solvers (the aligned transform is the scenario truth plus a recorded error)', 'FAST corner detector and Lucas-Kanade tracker (scenario geometry, with injected loss)',
                 'the sensors and the robot motion']},
    'race': {
        'real': ['as for the main program: the three node mains with front end, back end, registration, mapping, filters, stereo pipeline, eigen_ros, eigen_ext, eigen_gtsam and pointcloud_tools, compiled '
                 'unmodified from /repo with memory access instrumentation (-fsanitize=thread hooks)', 'GTSAM, PCL, Eigen, OpenCV templates instantiated in those sources'],
        'stub': ['the race detector behind the hooks (own happens-before detector)', 'ROS, threads, mutexes, condition variables, clock (simulator)', 'accesses inside precompiled libraries are not seen',
                 'registration solvers, corner detector, flow tracker, sensors']},
    'metrics': {
        'real': ['serpent/scripts/metrics_node.py, executed unmodified; numpy'],
        'stub': ['rospy (subscribers with one thread each, publisher, rate, timer, shutdown) and threading locks on the simulated scheduler, switching at every bytecode of the script', 'message classes',
                 'the serpent node (its three output topics)']},
    'tools': {
        'real': ['imu_transform, imu_analysis, odometry_to_tf, combine_transforms, integrate_imu, publish_info, change_frame_id, split_image, pointcloud_analyser and body_frames_tf: '
                 'their mains, classes and libraries compiled unmodified from /repo', 'GTSAM preintegration, OpenCV, PCL message types'],
        'stub': ['ROS (transport, queues, spinner, synchroniser, parameters, TF, services, clock)', 'image_transport and cv_bridge (raw transport, shared buffers)', 'the sensors']},
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def fail(msg):
    log('check error: ' + msg)
    sys.exit(2)


class Program:
    def __init__(self, kind):
        self.kind = kind
        self.cmd = ['python3-vt', os.path.join(VERIF, 'sim', 'metrics_sim.py')] if kind == 'metrics' else [simbuild.build(kind)]

    def batch(self, profile, first, count, stride, deadline, extra=()):
        left = max(1.0, deadline - time.time())
        p = subprocess.Popen(self.cmd + ['--profile', profile, '--from', str(first), '--count', str(count), '--stride', str(stride), '--seconds', '%.1f' % left] + list(extra),
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        return p

    def replay(self, rep, choices=False):
        path = os.path.join(REPLAYS, '.tmp-%d-%d' % (os.getpid(), threading.get_ident()))
        write_replay(path, rep)
        try:
            return self.replay_file(path, choices)
        finally:
            os.unlink(path)

    def replay_file(self, path, choices=False):
        r = subprocess.run(self.cmd + ['--replay', path] + (['--choices'] if choices else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        lines = [x for x in r.stdout.splitlines() if x.startswith('{')]
        return json.loads(lines[-1]) if lines else {'dead': r.returncode, 'viol': []}


def write_replay(path, rep):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write('profile %s\nseed %d\n' % (rep['profile'], rep['seed']))
        if rep.get('nscans'):
            f.write('nscans %d\n' % rep['nscans'])
        if rep.get('no_jitter'):
            f.write('no_jitter\n')
        for i in sorted(rep.get('faults_off', ())):
            f.write('fault_off %d\n' % i)
        if rep.get('choices') is not None:
            f.write('explicit\n')
            for p, v in sorted(rep['choices'].items()):
                f.write('choice %d %d\n' % (p, v))


def violations(d, prop):
    v = [x for x in d.get('viol', []) if x['p'] == prop]
    if 'dead' in d and prop == 'C01':
        v.append({'p': prop, 'c': 'died', 'm': 'the process died (status %s)' % d['dead']})
    return v


def known_classes(prop):
    """Lines 'known: property=<id> class=<violation class> [config=<config>] <text>'."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith('known: property=%s ' % prop):
                f = dict(x.split('=', 1) for x in line.split() if '=' in x)
                out.append((f.get('class', '').replace('_', ' '), line.strip()))
    return out


def parse_choices(d):
    return {int(a): int(b) for a, b in (x.split(':') for x in d.get('choices', '').split())}


def ident(d):
    return (d.get('hist'), d.get('sched'), d.get('crash'), d.get('topic'), json.dumps(d.get('viol', [])))


def minimise(prog, prop, rep, cls, budget):
    """Shrinks the fault list, the number of scans and the schedule while the same class of violation persists."""
    t_end = time.time() + budget

    def holds(r):
        if time.time() > t_end:
            return None
        d = prog.replay(r, choices=True)
        return d if any(v['c'] == cls for v in violations(d, prop)) else None
    best = dict(rep)
    d = holds(best)
    if not d:
        return rep, None
    cur = d
    n0, f0 = d.get('nscans', 0), d.get('nfaults', 0)
    for n in [3, 4, 5, 6, 8]:
        if n >= n0:
            break
        r = dict(best, nscans=n)
        x = holds(r)
        if x:
            best, cur = r, x
            break
    off = set()
    for chunk in ([set(range(f0))] if f0 else []) + [{i} for i in range(f0)]:
        r = dict(best, faults_off=off | chunk)
        x = holds(r)
        if x:
            off |= chunk
            best, cur = r, x
            if len(off) == f0:
                break
    r = dict(best, no_jitter=True)
    x = holds(r)
    if x:
        best, cur = r, x
    # schedule: replace the seeded choices by an explicit list, then drop as many as possible (a dropped choice is the default, 0)
    ch = {k: v for k, v in parse_choices(cur).items() if v}
    r = dict(best, choices=ch)
    x = holds(r)
    if x:
        best, cur = r, x
        keys = sorted(ch)
        n = 1
        while keys and time.time() < t_end:
            size = max(1, len(keys) // n)
            done = True
            i = 0
            while i < len(keys) and time.time() < t_end:
                rest = keys[:i] + keys[i + size:]
                r = dict(best, choices={k: ch[k] for k in rest})
                x = holds(r)
                if x:
                    best, cur, keys, done = r, x, rest, False
                else:
                    i += size
            if size == 1 and done:
                break
            n = min(len(keys), n * 2) if keys else 1
            if not keys:
                break
    return best, cur


def run_check(prop):
    t0 = time.time()
    kind, profiles, keys = PROPS[prop]
    prog = Program(kind)
    t_build = time.time() - t0
    total = int(os.environ.get("SIM_RUNS", RUNS[TIER] * sum(profiles.values())))
    deadline = t0 + t_build + WALL[TIER]
    base = 1 + (SEED - 1) * 1000003
    st = {'runs': 0, 'hist': set(), 'sched': set(), 'nontrivial': set(), 'simtime': 0.0, 'steps': 0, 'switches': 0, 'decisions': 0, 'faults': collections.Counter(), 'runs_with_fault': collections.Counter(),
          'cov': collections.Counter(), 'configs': collections.Counter(), 'checked': 0}
    samples, bad, lock, stop = [], [], threading.Lock(), threading.Event()
    known, hit_known = known_classes(prop), collections.Counter()
    sims = {}

    def consume(p):
        for line in p.stdout:
            if not line.startswith('{'):
                continue
            try:
                d = json.loads(line)
            except ValueError:
                continue
            with lock:
                st['runs'] += 1
                v = violations(d, prop)
                new = [x for x in v if not any(k[0] == x['c'] for k in known)]
                for x in v:
                    for k in known:
                        if k[0] == x['c']:
                            hit_known[k[1]] += 1
                if new:
                    bad.append((d, new))
                    if len(bad) >= 3:
                        stop.set()
                if 'hist' in d:
                    st['hist'].add(d['hist'])
                    st['sched'].add(d['sched'])
                    for k in ('simtime', 'steps', 'switches', 'decisions'):
                        st[k] += d.get(k, 0)
                    for k, c in d.get('faults', {}).items():
                        st['faults'][k] += c
                        st['runs_with_fault'][k] += 1
                    n = sum(d['cov'].get(k, 0) for k in keys)
                    st['checked'] += n
                    if n:
                        st['nontrivial'].add(d['hist'])
                    for k, c in d.get('cov', {}).items():
                        if k.startswith('C') and k[1:3].isdigit():
                            st['cov'][k] += c
                    st['configs'][d.get('config', '')] += 1
                    if len(samples) < 4 and n:
                        samples.append({k: d[k] for k in ('seed', 'profile', 'config', 'nscans', 'hist', 'sched', 'steps', 'simtime', 'faults') if k in d} | {'checked': {k: d['cov'].get(k, 0) for k in keys}})
                    sims[(d['profile'], d['seed'])] = d['hist']
    procs, threads = [], []
    share = sum(profiles.values())
    for prof, w in profiles.items():
        n = max(WORKERS, int(total * w / share))
        for i in range(WORKERS):
            p = prog.batch(prof, base + i, n // WORKERS, WORKERS, deadline)
            procs.append(p)
            t = threading.Thread(target=consume, args=(p,))
            t.start()
            threads.append(t)
    while any(t.is_alive() for t in threads):
        if stop.is_set():
            for p in procs:
                p.kill()
            break
        time.sleep(0.05)
    for t in threads:
        t.join()
    for p in procs:
        p.wait()
    t_sim = time.time() - t0 - t_build
    if not st['runs']:
        fail('no simulated run finished')

    # determinism: the same seeds in other processes, in another order, give the same histories
    det = 0
    for (prof, seed) in sorted(sims)[:: max(1, len(sims) // 6)][:6] if not bad else []:
        d = prog.replay({'profile': prof, 'seed': seed})
        det += 1
        if d.get('hist') != sims[(prof, seed)]:
            fail('seed %d of %s is not repeatable (%s, then %s)' % (seed, prof, sims[(prof, seed)], d.get('hist')))

    code, reported = 0, 0
    if bad:
        bad.sort(key=lambda x: x[0]['seed'])
        for d, v in bad[:3]:
            rep = {'profile': d['profile'], 'seed': d['seed']}
            a, b = prog.replay(rep, choices=True), prog.replay(rep, choices=True)
            cls = v[0]['c']
            if ident(a) != ident(b) or not any(x['c'] == cls for x in violations(a, prop)):
                log('seed %d: violation "%s" does not repeat' % (d['seed'], cls))
                continue
            small, cur = minimise(prog, prop, rep, cls, 40 if TIER == 'quick' else 240)
            path = os.path.join(REPLAYS, '%s-%s-%d.replay' % (prop, d['profile'], d['seed']))
            for cand in (small, rep):
                write_replay(path, cand)
                r1, r2 = prog.replay_file(path), prog.replay_file(path)
                if ident(r1) == ident(r2) and any(x['c'] == cls for x in violations(r1, prop)):
                    break
            else:
                log('seed %d: replay file does not reproduce' % d['seed'])
                continue
            m = next(x for x in violations(r1, prop) if x['c'] == cls)
            with open(path, 'a') as f:
                f.write('# property %s, class %s: %s\n# program %s, config %s; replay: python3 /verif/check.py --replay %s\n' % (prop, cls, m['m'].replace('\n', ' ')[:600], kind, d.get('config', ''), path))
                if cand.get('choices') is not None:
                    f.write('# minimised: %d of %d schedule choices, faults off: %s, %s scans\n' % (len(cand['choices']), len(parse_choices(a)), sorted(cand.get('faults_off', ())), cand.get('nscans', 'all')))
            print('%s: %s: %s (seed %d, config %s)' % (prop, cls, m['m'], d['seed'], d.get('config', '')))
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            reported += 1
            code = 1
            break
        if not reported:
            fail('violations were seen but none could be reproduced')
    for k in sorted(hit_known):
        print('KNOWN-FINDING: property=%s %s' % (prop, k.split('class=', 1)[1]))
    if not bad and not st['checked']:
        fail('no simulated run exercised %s' % prop)
    ev = {
        'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'exploration',
        'coverage': {
            'evaluations': st['runs'],
            'distinct_nontrivial': len(st['nontrivial']),
            'rule': 'one evaluation is one simulated execution, generated from one seed (configuration, motion, sensor data, faults and every scheduling decision); it is non-trivial when the oracle '
                    'judged at least one item (%s), and distinct when the hash of its full event history (every publication, delivery and callback boundary with its contents) differs' % ', '.join(keys),
            'samples': samples,
            'items_judged': st['checked'],
            'runs_per_hour': int(st['runs'] / max(t_sim, 1e-3) * 3600),
            'simulated_seconds': round(st['simtime'], 1),
            'scheduling_steps': st['steps'], 'context_switches': st['switches'], 'scheduling_decisions': st['decisions'],
            'distinct_histories': len(st['hist']), 'distinct_interleavings': len(st['sched']),
            'interleaving_measure': 'hash of the sequence of (thread chosen, alternatives) over all scheduling decisions of the run',
            'faults_injected': dict(sorted(st['faults'].items())), 'runs_with_fault': dict(sorted(st['runs_with_fault'].items())),
            'configurations': dict(st['configs'].most_common(24)),
            'probes': {k: c for k, c in sorted(st['cov'].items()) if k.startswith(prop)},
            'determinism_reruns': det,
            'components': COMPONENTS[kind],
            'build_s': round(t_build, 1), 'simulation_s': round(t_sim, 1),
        },
        'assumptions': ['the ROS stand-ins keep the documented semantics of roscpp, message_filters and tf2 (DESIGN.md)',
                        'sampling: a clean batch is evidence for the executions run, not proof for all'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(bad),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    log('%s: %d runs, %d distinct non-trivial, %d items judged, %d violating; build %.1f s, simulation %.1f s' % (prop, st['runs'], len(st['nontrivial']), st['checked'], len(bad), t_build, t_sim))
    return code


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        prog_kind = 'main'
        for line in open(sys.argv[2]):
            if line.startswith('# program '):
                prog_kind = line.split()[2].rstrip(',')
        d = Program(prog_kind).replay_file(sys.argv[2])
        for v in d.get('viol', []):
            print('%s: %s: %s' % (v['p'], v['c'], v['m']))
        return 1 if d.get('viol') else 0
    if len(sys.argv) != 2 or sys.argv[1] not in PROPS:
        log(__doc__)
        return 2
    return run_check(sys.argv[1])


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit as e:
        sys.exit(2 if e.code == 3 else e.code)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
