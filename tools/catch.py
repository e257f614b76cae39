#!/usr/bin/env python3
"""Runs the check of its own property against every planted bug, in scratch copies of /repo.

  catch.py OUT.jsonl [ID...]    JOBS=2 runs two at a time; ids already in OUT are skipped
"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = sys.argv[1]
ids = sys.argv[2:] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
done = set()
if os.path.exists(out) and not sys.argv[2:]:
    done = {json.loads(l)['id'] for l in open(out)}
lock = threading.Lock()
jobs = int(os.environ.get('JOBS', '1'))
work = tempfile.mkdtemp(prefix='catch', dir='/tmp')
slots = list(range(jobs))


def one(i):
    with lock:
        slot = slots.pop()
    d = os.path.join(VERIF, 'seeded', i)
    repo = os.path.join(work, f'r{slot}')
    try:
        if not os.path.exists(repo):
            subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
            if os.path.exists('/repo/Cargo.lock') and not os.path.exists(repo + '/Cargo.lock'):
                shutil.copy2('/repo/Cargo.lock', repo)
        subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'], check=True)
        p = subprocess.run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')], capture_output=True, text=True)
        pid = json.load(open(os.path.join(d, 'meta.json')))['property']
        if p.returncode:
            r = {'id': i, 'property': pid, 'result': 'does not apply'}
        else:
            t = time.time()
            env = dict(os.environ, PCR_REPO=repo, PCR_BUILD=os.path.join(work, f'b{slot}'), PCR_EVIDENCE=os.path.join(work, f'e{slot}'), VERIF_TIER='quick', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), pid], env=env, capture_output=True, text=True, cwd=VERIF)
            v = [l for l in p.stdout.split('\n') if l.startswith(f'VIOLATION property={pid} ')]
            r = {'id': i, 'property': pid, 'result': 'caught' if p.returncode == 1 and v else 'MISSED' if p.returncode == 0 else f'no answer ({p.returncode})', 's': round(time.time() - t), 'how': next((l for l in p.stdout.split('\n') if l.startswith('stream ')), '')[:160]}
        with lock:
            with open(out, 'a') as f:
                f.write(json.dumps(r) + '\n')
            print(r['id'], r['property'], r['result'], flush=True)
    finally:
        with lock:
            slots.append(slot)


try:
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, [i for i in ids if i not in done]))
finally:
    shutil.rmtree(work, ignore_errors=True)
