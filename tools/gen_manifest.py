#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from check.py's table and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check  # noqa: E402
TECH = 'deterministic simulation with fault injection: seeded search over schedules, delays and faults; '
ORACLE = {
    'C01': 'bounded-progress and no-crash oracle over the recorded history',
    'C02': 'state-chain consistency oracle over the recorded history',
    'C03': 'reference model of the IMU windows and preintegration',
    'C04': 'reference extrapolation of the newest adopted state for every IMU message',
    'C05': 'reference deskewing of every point from the recorded IMU and states',
    'C06': 'batch least-squares reference over exactly the measurements delivered',
    'C07': 'reference of both registration stages, guesses and covariance',
    'C08': 'reference map (key frames, selection, re-posing) for every published map',
    'C09': 'reference interpolation of the barometer at state times, exactly once per state',
    'C10': 'reference of the stereo synchronisation and of which state each frame constrains',
    'C11': 'bounded shutdown from an arbitrary point of the run',
    'C12': 'simulated data-race detector (vector clocks over instrumented memory accesses)',
    'C13': 'recovery oracle under loss, gaps and overflow',
    'C14': 'reference track identity and stereo match oracle',
    'C15': 'reference transform tree and pose outputs',
    'C16': 'reference models of the tool nodes',
    'C17': 'reference filters and formatter for every cloud',
    'C18': 'full-history batch reference for a bounded window',
    'C21': 'reference of every metric over the messages taken in when it was computed',
}
NA = {
    'C19': 'pure function of its input: no schedule, clock, I/O, fault or multi-party behaviour for a simulator to control',
    'C20': 'pure function of its input: no schedule, clock, I/O, fault or multi-party behaviour for a simulator to control',
}
ids = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 sim/build.py main',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the simulator replaces ROS, threads, clock and mutexes outside /repo', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in check.PROPS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i, 'evidence_file': 'evidence/%s.json' % i,
                            'technique': TECH + ORACLE[i], 'level': 'exploration',
                            'level_note': 'Seeded sampling of whole-system executions of the unmodified sources on a simulated ROS; evidence for the executions run, not proof. '
                                          'Trusts the ROS stand-ins, the solver stand-ins and the reference oracle (DESIGN.md).'})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
