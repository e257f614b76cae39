#!/usr/bin/env python3
"""Plants the bugs of plants/specs.py: writes /verif/seeded/<id>, and says which count and which are caught.

  plant.py make [ID...]     writes the folders, and checks patch, build, tests and demonstration in a copy of /repo
  plant.py check [ID...] [--all]  runs the property's check (--all: every check) against each
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools', 'plants'))
from specs import S
import specs2, specs3, specs4, specs5
BASE = 'ebd72af'
P = os.path.join(V, 'tools', 'plants')
SEED = os.path.join(V, 'seeded')


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout + p.stderr


def apply(spec, repo):
    for f, after, old, new in spec['edits']:
        p = os.path.join(repo, 'src/parser', f + '.rs')
        t = open(p, encoding='utf8').read()
        a = t.find(after)
        if re.fullmatch(r'fn \w+', after):  # the body, not the declaration in the trait
            m = list(re.finditer(after + r'\(.*\{', t))
            if m: a = m[-1].start()
        if a < 0: return 'anchor not found: %r' % after[:60]
        i = t.find(old, a)
        if i < 0:  # the indentation of the specification need not be right
            m = re.compile(r'\s+'.join(re.escape(x) for x in old.split())).search(t, a)
            if not m: return 'text not found: %r' % old[:80]
            t = t[:m.start()] + new.strip() + t[m.end():]
        else:
            t = t[:i] + new + t[i + len(old):]
        open(p, 'w', encoding='utf8').write(t)


def originals(repo, diff):
    """do the removed lines (or, without any, the neighbours) stem from the base commit?"""
    own = set(subprocess.run(['git', '-C', repo, 'rev-list', BASE + '..HEAD'], capture_output=True, text=True).stdout.split())
    bad = 0; good = 0; f = None; n = 0
    for l in diff.splitlines():
        if l.startswith('--- a/'): f = l[6:]
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            b = subprocess.run(['git', '-C', repo, 'blame', '-L', f'{n},{n}', '--porcelain', 'HEAD', '--', f], capture_output=True, text=True).stdout.split()[0]
            if b in own: bad += 1
            else: good += 1
            n += 1
        elif l.startswith(' '): n += 1
    return good, bad


def make(spec):
    out = os.path.join(SEED, spec['id'])
    with tempfile.TemporaryDirectory(prefix='plant') as tmp:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('target'))
        clean = os.path.join(tmp, 'clean')
        shutil.copytree('/repo', clean, ignore=shutil.ignore_patterns('target'))
        e = apply(spec, repo)
        if e: return e
        diff = sh(['git', 'diff', '--no-color'], repo)[1]
        if not diff: return 'no change'
        good, bad = originals(repo, diff)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'prelude.rs', 'demo.sh'): shutil.copy2(os.path.join(P, f), out)
        open(out + '/demo.rs', 'w').write(spec.get('extra', '') + spec['demo'])
        if spec.get('asan'): open(out + '/asan', 'w').write('address sanitizer\n')
        json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['what']}, open(out + '/meta.json', 'w'), indent=1)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(tmp, 'target'), CARGO_NET_OFFLINE='true')
        rc, o = sh('cargo test -q --offline --locked 2>&1 | tail -40', repo, env)
        m = re.search(r'test result: (\w+)\. (\d+) passed; (\d+) failed', o)
        if not m: return 'does not build: ' + o[-600:]
        if m.group(1) != 'ok': return 'tests fail: ' + ' '.join(re.findall(r'^    (\S+)$', o, re.M))[:300]
        a, oa = sh(['sh', out + '/demo.sh'], clean)
        b, ob = sh(['sh', out + '/demo.sh'], repo)
        st = []
        if a: st.append('demo fails on the unchanged tree: ' + oa[-400:])
        if not b: st.append('demo passes with the patch')
        if b == 3: st.append('demo does not build with the patch' + ob[-400:])
        if not good: st.append('changes no original line (%d own)' % bad)
        elif bad: st.append('note: %d original lines, %d own lines' % (good, bad))
        return '; '.join(st) or 'ok'


def check(spec, every):
    out = os.path.join(SEED, spec['id'])
    with tempfile.TemporaryDirectory(prefix='plant') as tmp:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('target'))
        rc, o = sh(['git', 'apply', out + '/patch.diff'], repo)
        if rc: return {'error': o}
        env = dict(os.environ, PCR_REPO=repo, PCR_BUILD=os.path.join(tmp, 'build'), PCR_EVIDENCE=os.path.join(tmp, 'ev'), VERIF_SEED='1', VERIF_TIER='quick')
        res = {}
        for pid in ([spec['prop']] + [f'P{i:02}' for i in range(1, 29) if f'P{i:02}' != spec['prop']] if every else [spec['prop']]):
            rc, o = sh([sys.executable, os.path.join(V, 'check.py'), pid], env=env, timeout=1500)
            res[pid] = rc
            if rc and not every or rc not in (0, 1): res['out'] = o[-500:]
        return res


if __name__ == '__main__':
    ids = [x for x in sys.argv[2:] if not x.startswith('-')]
    todo = [s for s in S if not ids or s['id'] in ids]
    if sys.argv[1] == 'make':
        with ThreadPoolExecutor(4) as ex:
            for s, r in zip(todo, ex.map(make, todo)): print(f"{s['id']:28} {s['prop']} {r}", flush=True)
    else:
        every = '--all' in sys.argv
        res = {}
        with ThreadPoolExecutor(2) as ex:
            for s, r in zip(todo, ex.map(lambda s: check(s, every), todo)):
                print(f"{s['id']:28} {s['prop']} {'CAUGHT' if r.get(s['prop']) == 1 else 'MISSED'} {','.join(k for k, v in r.items() if v == 1)} {r.get('out', '') if r.get(s['prop']) != 1 else ''}", flush=True)
                res[s['id']] = r
        if every: json.dump(res, open('/tmp/plants.json', 'w'))
