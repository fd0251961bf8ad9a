#!/usr/bin/env python3
"""Writes seeded/<id>/ from a list of edits: patch.diff against /repo HEAD, meta.json and (for node code, which only runs with the simulated ROS)
a demo.sh with its own copy of the simulator sources. Usage: mkseed.py SPEC.py [ids]; SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, profile, seeds)]."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Runs %(n)s simulated executions of the system built from the current tree and fails when one violates %(prop)s.
set -u
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
cp -r "$here/sim" "$out/sim"
export SIM_REPO="$PWD" SIM_BUILD="$out/build"
%(build)s
pids=()
for i in 0 1 2 3 4 5 6 7; do
  "${exe[@]}" --profile %(profile)s --from $((%(first)s + i)) --count %(per)s --stride 8 --seconds 150 >"$out/r$i" 2>/dev/null &
  pids+=($!)
done
wait "${pids[@]}"
cat "$out"/r? | python3 -c '
import sys, json
n = bad = 0
for l in sys.stdin:
    if not l.startswith("{"): continue
    d = json.loads(l); n += 1
    for v in d.get("viol", []):
        if v["p"] == "%(prop)s":
            bad += 1
            if bad <= 3: print("seed", d["seed"], v["c"], v["m"][:200])
print(n, "executions,", bad, "violations")
sys.exit(1 if bad else 0 if n else 3)'
'''
BUILD = '''exe=$(python3 "$out/sim/build.py" %s 2>"$out/log" | tail -1)
[ -x "$exe" ] || { tail -5 "$out/log"; echo "build failed"; exit 3; }'''
METRICS = 'exe=(python3-vt "$out/sim/metrics_sim.py")'
bugs = runpy.run_path(sys.argv[1])['BUGS']
W = '/tmp/mkseed_repo'
for b in bugs:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
        continue
    if os.path.isdir(W): shutil.rmtree(W)
    subprocess.check_call(['git', 'clone', '-q', '/repo', W])
    for f, old, new in b['edits']:
        s = open(W + '/' + f).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old))
        open(W + '/' + f, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', W, 'diff'], text=True)
    d = os.path.join(V, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if 'profile' in b:
        if os.path.isdir(d + '/sim'): shutil.rmtree(d + '/sim')
        shutil.copytree(V + '/sim', d + '/sim', ignore=shutil.ignore_patterns('__pycache__'))
        n = b.get('n', 160)
        open(d + '/demo.sh', 'w').write(DEMO % dict(n=n, per=n // 8, prop=b['prop'], profile=b['profile'], first=b.get('first', 1), build=METRICS if b['profile'] == 'c21' else BUILD % b.get('program', 'main')))
        os.chmod(d + '/demo.sh', 0o755)
    shutil.rmtree(W)
